// C24: cernan's counters are reported under their names, each count once.
use vstd::prelude::*;
use vstd::multiset::Multiset;
verus! {
global size_of usize == 8;
//@include inc/float.inc
//@include inc/tags.inc
#[verifier::external_body]
pub fn tags_clone(t: &Option<TagMap>) -> (r: Option<TagMap>) ensures match (*t, r) { (Some(a), Some(b)) => a@ == b@, (None, None) => true, _ => false } { unimplemented!() }
//@include inc/telemetry.inc
//@include inc/build.inc
/*@ item src/metric/logline.rs struct LogLine
@*/
//@include inc/tagfns.inc
pub mod metric {
    pub use super::{Telemetry, LogLine, AggregationMethod, TagMap};
    use super::*;
    pub enum Encoding { Raw, Avro, JSON }
    #[verifier::external_body]
    pub struct Metadata { _p: () }
    #[verifier::external_body]
    pub struct Uuid { _p: () }
/*@ item src/metric/event.rs enum Event
@*/
    impl Event {
/*@ fn src/metric/event.rs Event.new_telemetry
attr: pub
ret: r
spec:
    ensures r == Event::Telemetry(metric)
@*/
    }
}
// ---- the counters, and what a user knows them as
/// a counter: whether it holds a level (reported as a set) and not a count, and what a user knows it as
pub struct Counter { pub id: u64, pub level: bool, pub name: &'static str }
pub mod source {
    use super::*;
    pub mod graphite { use crate::Counter;
        pub const GRAPHITE_NEW_PEER: Counter = Counter { id: 1, level: false, name: "cernan.graphite.new_peer" }; pub const GRAPHITE_GOOD_PACKET: Counter = Counter { id: 2, level: false, name: "cernan.graphite.packet" }; pub const GRAPHITE_TELEM: Counter = Counter { id: 3, level: false, name: "cernan.graphite.telemetry.received" }; pub const GRAPHITE_BAD_PACKET: Counter = Counter { id: 4, level: false, name: "cernan.graphite.bad_packet" };
    }
    pub mod statsd { use crate::Counter;
        pub const STATSD_GOOD_PACKET: Counter = Counter { id: 5, level: false, name: "cernan.statsd.packet" }; pub const STATSD_BAD_PACKET: Counter = Counter { id: 6, level: false, name: "cernan.statsd.bad_packet" };
    }
    pub mod native { use crate::Counter;
        pub const NATIVE_PAYLOAD_SUCCESS_SUM: Counter = Counter { id: 7, level: false, name: "cernan.native.payload.success" }; pub const NATIVE_PAYLOAD_PARSE_FAILURE_SUM: Counter = Counter { id: 8, level: false, name: "cernan.native.payload.parse.failure" };
    }
    pub mod avro { use crate::Counter;
        pub const AVRO_PAYLOAD_SUCCESS_SUM: Counter = Counter { id: 9, level: false, name: "cernan.avro.payload.success" }; pub const AVRO_PAYLOAD_PARSE_FAILURE_SUM: Counter = Counter { id: 10, level: false, name: "cernan.avro.payload.parse.failure" }; pub const AVRO_PAYLOAD_IO_FAILURE_SUM: Counter = Counter { id: 11, level: false, name: "cernan.avro.payload.io.failure" };
    }
}
pub mod sink {
    use super::*;
    pub mod elasticsearch { use crate::Counter;
        pub const ELASTIC_RECORDS_DELIVERY: Counter = Counter { id: 12, level: false, name: "cernan.sinks.elasticsearch.records.delivery" }; pub const ELASTIC_INTERNAL_BUFFER_LEN: Counter = Counter { id: 13, level: false, name: "cernan.sinks.elasticsearch.internal.buffer_len" }; pub const ELASTIC_RECORDS_TOTAL_DELIVERED: Counter = Counter { id: 14, level: false, name: "cernan.sinks.elasticsearch.records.total_delivered" }; pub const ELASTIC_RECORDS_TOTAL_FAILED: Counter = Counter { id: 15, level: false, name: "cernan.sinks.elasticsearch.records.total_failed" }; pub const ELASTIC_ERROR_UNKNOWN: Counter = Counter { id: 16, level: false, name: "cernan.sinks.elasticsearch.error.unknown" }; pub const ELASTIC_BULK_ACTION_INDEX_ERR: Counter = Counter { id: 17, level: false, name: "cernan.sinks.elasticsearch.error.bulk_action.index" }; pub const ELASTIC_BULK_ACTION_CREATE_ERR: Counter = Counter { id: 18, level: false, name: "cernan.sinks.elasticsearch.error.bulk_action.create" }; pub const ELASTIC_BULK_ACTION_UPDATE_ERR: Counter = Counter { id: 19, level: false, name: "cernan.sinks.elasticsearch.error.bulk_action.update" }; pub const ELASTIC_BULK_ACTION_DELETE_ERR: Counter = Counter { id: 20, level: false, name: "cernan.sinks.elasticsearch.error.bulk_action.delete" }; pub const ELASTIC_ERROR_API_INDEX_NOT_FOUND: Counter = Counter { id: 21, level: false, name: "cernan.sinks.elasticsearch.error.api.index_not_found" }; pub const ELASTIC_ERROR_API_PARSING: Counter = Counter { id: 22, level: false, name: "cernan.sinks.elasticsearch.error.api.parsing" }; pub const ELASTIC_ERROR_API_MAPPER_PARSING: Counter = Counter { id: 23, level: false, name: "cernan.sinks.elasticsearch.error.api.mapper_parsing" }; pub const ELASTIC_ERROR_API_ACTION_REQUEST_VALIDATION: Counter = Counter { id: 24, level: false, name: "cernan.sinks.elasticsearch.error.api.action_request_validation" }; pub const ELASTIC_ERROR_API_DOCUMENT_MISSING: Counter = Counter { id: 25, level: false, name: "cernan.sinks.elasticsearch.error.api.action_document_missing" }; pub const ELASTIC_ERROR_API_INDEX_ALREADY_EXISTS: Counter = Counter { id: 26, level: false, name: "cernan.sinks.elasticsearch.error.api.index_already_exists" }; pub const ELASTIC_ERROR_API_UNKNOWN: Counter = Counter { id: 27, level: false, name: "cernan.sinks.elasticsearch.error.api.unknown" }; pub const ELASTIC_ERROR_CLIENT: Counter = Counter { id: 28, level: false, name: "cernan.sinks.elasticsearch.error.client" };
    }
    pub mod wavefront { use crate::Counter;
        pub const WAVEFRONT_CONNECT_ATTEMPTS: Counter = Counter { id: 29, level: false, name: "cernan.sinks.wavefront.proxy.connection_attempts" }; pub const WAVEFRONT_AGGR_STORED_VALUES: Counter = Counter { id: 30, level: true, name: "cernan.sinks.wavefront.aggregations.total_stored" }; pub const WAVEFRONT_AGGR_HISTO: Counter = Counter { id: 31, level: false, name: "cernan.sinks.wavefront.aggregation.histogram" }; pub const WAVEFRONT_AGGR_SUM: Counter = Counter { id: 32, level: false, name: "cernan.sinks.wavefront.aggregation.sum" }; pub const WAVEFRONT_AGGR_SET: Counter = Counter { id: 33, level: false, name: "cernan.sinks.wavefront.aggregation.set" }; pub const WAVEFRONT_AGGR_SUMMARIZE: Counter = Counter { id: 34, level: false, name: "cernan.sinks.wavefront.aggregation.summarize" }; pub const WAVEFRONT_AGGR_TOT_PERCENT: Counter = Counter { id: 35, level: false, name: "cernan.sinks.wavefront.aggregation.summarize.total_percentiles" }; pub const WAVEFRONT_DELIVERY_SUCCESS: Counter = Counter { id: 36, level: false, name: "cernan.sinks.wavefront.delivery.success" }; pub const WAVEFRONT_DELIVERY_FAILURE: Counter = Counter { id: 37, level: false, name: "cernan.sinks.wavefront.delivery.failure" }; pub const WAVEFRONT_VALVE_CLOSED: Counter = Counter { id: 38, level: false, name: "cernan.sinks.wavefront.valve.closed" }; pub const WAVEFRONT_VALVE_OPEN: Counter = Counter { id: 39, level: false, name: "cernan.sinks.wavefront.valve.open" };
    }
    pub mod prometheus { use crate::Counter;
        pub const PROMETHEUS_AGGR_WINDOWED_PURGED: Counter = Counter { id: 40, level: false, name: "cernan.sinks.prometheus.aggregation.inside_baseball.windowed.purged" }; pub const PROMETHEUS_RESPONSE_DELAY_SUM: Counter = Counter { id: 41, level: false, name: "cernan.sinks.prometheus.exposition.inside_baseball.delay.sum" }; pub const PROMETHEUS_AGGR_REPORTABLE: Counter = Counter { id: 42, level: true, name: "cernan.sinks.prometheus.aggregation.reportable" }; pub const PROMETHEUS_REPORT_SUCCESS: Counter = Counter { id: 43, level: false, name: "cernan.sinks.prometheus.report.success" }; pub const PROMETHEUS_REPORT_ERROR: Counter = Counter { id: 44, level: false, name: "cernan.sinks.prometheus.report.error" };
    }
    pub mod influxdb { use crate::Counter;
        pub const INFLUX_DELIVERY_ATTEMPTS: Counter = Counter { id: 45, level: false, name: "cernan.sinks.influxdb.delivery_attempts" }; pub const INFLUX_SUCCESS: Counter = Counter { id: 46, level: false, name: "cernan.sinks.influxdb.success" }; pub const INFLUX_FAILURE_CLIENT: Counter = Counter { id: 47, level: false, name: "cernan.sinks.influxdb.failure.client_error" }; pub const INFLUX_FAILURE_SERVER: Counter = Counter { id: 48, level: false, name: "cernan.sinks.influxdb.failure.server_error" };
    }
    pub mod kafka { use crate::Counter;
        pub const KAFKA_PUBLISH_SUCCESS_SUM: Counter = Counter { id: 49, level: false, name: "cernan.sinks.kafka.publish.success" }; pub const KAFKA_PUBLISH_RETRY_SUM: Counter = Counter { id: 50, level: false, name: "cernan.sinks.kafka.publish.retry" }; pub const KAFKA_PUBLISH_FAILURE_SUM: Counter = Counter { id: 51, level: false, name: "cernan.sinks.kafka.publish.failure" }; pub const KAFKA_PUBLISH_RETRY_FAILURE_SUM: Counter = Counter { id: 52, level: false, name: "cernan.sinks.kafka.publish.retry.failure" };
    }
}
pub mod filter {
    use super::*;
    pub mod delay_filter { use crate::Counter;
        pub const DELAY_TELEM_ACCEPT: Counter = Counter { id: 53, level: false, name: "cernan.filters.delay.telemetry.accept" }; pub const DELAY_TELEM_REJECT: Counter = Counter { id: 54, level: false, name: "cernan.filters.delay.telemetry.reject" }; pub const DELAY_LOG_REJECT: Counter = Counter { id: 55, level: false, name: "cernan.filters.delay.log.reject" }; pub const DELAY_LOG_ACCEPT: Counter = Counter { id: 56, level: false, name: "cernan.filters.delay.log.accept" };
    }
    pub mod json_encode_filter { use crate::Counter;
        pub const JSON_ENCODE_LOG_PROCESSED: Counter = Counter { id: 57, level: false, name: "cernan.filters.json_encode.log.processed" }; pub const JSON_ENCODE_LOG_PARSED: Counter = Counter { id: 58, level: false, name: "cernan.filters.json_encode.log.parsed" };
    }
}
pub open spec fn every_counter(s: Set<u64>) -> bool { s.contains(0) && s.contains(1) && s.contains(2) && s.contains(3) && s.contains(4) && s.contains(5) && s.contains(6) && s.contains(7) && s.contains(8) && s.contains(9) && s.contains(10) && s.contains(11) && s.contains(12) && s.contains(13) && s.contains(14) && s.contains(15) && s.contains(16) && s.contains(17) && s.contains(18) && s.contains(19) && s.contains(20) && s.contains(21) && s.contains(22) && s.contains(23) && s.contains(24) && s.contains(25) && s.contains(26) && s.contains(27) && s.contains(28) && s.contains(29) && s.contains(30) && s.contains(31) && s.contains(32) && s.contains(33) && s.contains(34) && s.contains(35) && s.contains(36) && s.contains(37) && s.contains(38) && s.contains(39) && s.contains(40) && s.contains(41) && s.contains(42) && s.contains(43) && s.contains(44) && s.contains(45) && s.contains(46) && s.contains(47) && s.contains(48) && s.contains(49) && s.contains(50) && s.contains(51) && s.contains(52) && s.contains(53) && s.contains(54) && s.contains(55) && s.contains(56) && s.contains(57) && s.contains(58) }
/// the point that states what was counted
pub open spec fn states(t: Telemetry, c: Counter, n: usize) -> bool {
    t.name@ == c.name@ && t.value is Some && !t.persist && t.tags is None
    && agg(t.value->0) == (if c.level { Agg::Set(fof(n as int)) } else { Agg::Sum(fof(n as int)) })
}
pub enum Owed { Nothing, Count(Counter, usize), Point(Telemetry) }
pub enum Ordering { Relaxed, Acquire, Release, AcqRel, SeqCst }
pub mod util {
    use super::*;
    pub const UTIL_SEND_HOPPER_ERROR_FULL: Counter = Counter { id: 0, level: false, name: "cernan.util.hopper.error.full" };
    /// The forwards, and of the run: what was taken and is not passed on yet, the counters
    /// looked at in this second, whether a second has passed and whether the queue was found
    /// empty since the last look, whether the end was announced.
    #[verifier::external_body]
    pub struct Channel { _p: () }
    impl Channel {
        pub uninterp spec fn none(&self) -> bool;
        pub uninterp spec fn owed(&self) -> Owed;
        pub uninterp spec fn looked(&self) -> Set<u64>;
        pub uninterp spec fn due(&self) -> bool;
        pub uninterp spec fn drained(&self) -> bool;
        pub uninterp spec fn ended(&self) -> bool;
        #[verifier::external_body]
        pub fn is_empty(&self) -> (r: bool) ensures r == self.none() { unimplemented!() }
        /// what was counted is taken, and the counter is at nothing again
        #[verifier::external_body]
        pub fn swap(&mut self, c: &Counter, v: usize, o: Ordering) -> (r: usize)
            requires v == 0, old(self).owed() is Nothing, !old(self).ended()
            ensures
                final(self).owed() == (if r == 0 { Owed::Nothing } else { Owed::Count(*c, r) }),
                final(self).looked() == old(self).looked().insert(c.id),
                final(self).none() == old(self).none(), final(self).due() == old(self).due(), final(self).drained() == old(self).drained(), final(self).ended() == old(self).ended(),
        { unimplemented!() }
    }
    /// Others count on at any moment, so that what a look without taking shows (and nothing
    /// shown is a look of its own) may be less than what is there an instant later.
    impl Channel {
        pub uninterp spec fn shown(&self) -> Option<(u64, usize)>;
        #[verifier::external_body]
        pub fn load(&mut self, c: &Counter, o: Ordering) -> (r: usize)
            ensures
                final(self).shown() == Some((c.id, r)),
                final(self).looked() == (if r == 0 { old(self).looked().insert(c.id) } else { old(self).looked() }),
                final(self).owed() == old(self).owed(),
                final(self).none() == old(self).none(), final(self).due() == old(self).due(), final(self).drained() == old(self).drained(), final(self).ended() == old(self).ended(),
        { unimplemented!() }
        /// overwriting would lose what others count, except for a level
        #[verifier::external_body]
        pub fn store(&mut self, c: &Counter, v: usize, o: Ordering)
            requires c.level, v == 0, old(self).shown() is Some, (old(self).shown()->0).0 == c.id, old(self).owed() is Nothing || (old(self).shown()->0).1 == 0
            ensures
                final(self).owed() == (if (old(self).shown()->0).1 == 0 { old(self).owed() } else { Owed::Count(*c, (old(self).shown()->0).1) }),
                final(self).looked() == old(self).looked().insert(c.id), final(self).shown() is None,
                final(self).none() == old(self).none(), final(self).due() == old(self).due(), final(self).drained() == old(self).drained(), final(self).ended() == old(self).ended(),
        { unimplemented!() }
        /// what was shown is taken, what was counted since stays
        #[verifier::external_body]
        pub fn fetch_sub(&mut self, c: &Counter, v: usize, o: Ordering) -> (r: usize)
            requires old(self).shown() == Some((c.id, v)), old(self).owed() is Nothing, !old(self).ended()
            ensures
                r >= v, final(self).shown() is None,
                final(self).owed() == (if v == 0 { Owed::Nothing } else { Owed::Count(*c, v) }),
                final(self).looked() == old(self).looked().insert(c.id),
                final(self).none() == old(self).none(), final(self).due() == old(self).due(), final(self).drained() == old(self).drained(), final(self).ended() == old(self).ended(),
        { unimplemented!() }
    }
    /// Only what is owed is sent.
    #[verifier::external_body]
    pub fn send(chans: &mut Channel, event: metric::Event)
        requires
            !old(chans).ended(),
            match old(chans).owed() {
                Owed::Nothing => event is Shutdown,
                Owed::Count(c, n) => event matches metric::Event::Telemetry(t) && states(t, c, n) && clock_reads(t.timestamp),
                Owed::Point(t) => event == metric::Event::Telemetry(t),
            }
        ensures
            final(chans).owed() is Nothing, final(chans).ended() == (event is Shutdown),
            final(chans).looked() == old(chans).looked(), final(chans).none() == old(chans).none(), final(chans).due() == old(chans).due(), final(chans).drained() == old(chans).drained(),
    { unimplemented!() }
}
pub mod mio {
    use super::*;
    #[verifier::external_body]
    pub struct Poll { _p: () }
    #[verifier::external_body]
    pub struct PollError { _p: () }
    #[verifier::external_body]
    pub struct Events { _p: () }
    impl Events {
        #[verifier::external_body]
        pub fn with_capacity(n: usize) -> Events { unimplemented!() }
    }
    impl Poll {
        /// a second passes, or the call to end comes; a new look is due when nothing came
        #[verifier::external_body]
        pub fn poll(&self, events: &mut Events, t: Option<Duration>, w: &mut util::Channel) -> (r: Result<usize, PollError>)
            ensures
                final(w).due() == (r matches Ok(n) && n == 0), final(w).looked() == Set::<u64>::empty(), !final(w).drained(),
                final(w).none() == old(w).none(), final(w).owed() == old(w).owed(), final(w).ended() == old(w).ended(),
        { unimplemented!() }
    }
}
#[derive(Clone, Copy)]
#[verifier::external_body]
pub struct Duration { _p: () }
#[verifier::external_body]
pub fn millis(n: u64) -> Duration { unimplemented!() }
/// the queue of points that other parts report
pub struct Stack {}
pub const Q: Stack = Stack {};
pub uninterp spec fn reported() -> Seq<Telemetry>;
impl Stack {
    #[verifier::external_body]
    pub fn pop(&self, w: &mut util::Channel) -> (r: Option<Telemetry>)
        requires old(w).owed() is Nothing || (old(w).none() && !(old(w).owed() is Count)), !old(w).ended()
        ensures
            match r { Some(t) => final(w).owed() == Owed::Point(t) && !final(w).drained(), None => final(w).owed() is Nothing && final(w).drained() },
            final(w).looked() == old(w).looked(), final(w).none() == old(w).none(), final(w).due() == old(w).due(), final(w).ended() == old(w).ended(),
    { unimplemented!() }
    #[verifier::external_body]
    pub fn push(&self, t: Telemetry, given: &mut Given) ensures final(given).put() == old(given).put().push(t) { unimplemented!() }
}
/// what was put into the queue
#[verifier::external_body]
pub struct Given { _p: () }
impl Given { pub uninterp spec fn put(&self) -> Seq<Telemetry>; }

pub fn atom_telem(p0: &'static str, p1: Counter, p2: &mut util::Channel)
    requires old(p2).owed() is Nothing, !old(p2).ended(), p0@ == p1.name@, !p1.level
    ensures
        final(p2).owed() is Nothing, final(p2).looked() == old(p2).looked().insert(p1.id), !final(p2).ended(),
        final(p2).none() == old(p2).none(), final(p2).due() == old(p2).due(), final(p2).drained() == old(p2).drained(),
/*@ item src/source/internal.rs macro atom_telem
rw `p1.swap($*x)` => `p2.swap(&p1, $*x)`
rw `p1.load($*x)` => `p2.load(&p1, $*x)`
rw `p1.store($*x)` => `p2.store(&p1, $*x)`
rw `p1.fetch_sub($*x)` => `p2.fetch_sub(&p1, $*x)`
rw `util::send(&mut p2, $*e)` => `util::send(p2, $*e)`
rw `let now = time::now();` => `broadcast use {strings, floats}; let now = time::now();`
@*/
pub fn atom_set_telem(p0: &'static str, p1: Counter, p2: &mut util::Channel)
    requires old(p2).owed() is Nothing, !old(p2).ended(), p0@ == p1.name@, p1.level
    ensures
        final(p2).owed() is Nothing, final(p2).looked() == old(p2).looked().insert(p1.id), !final(p2).ended(),
        final(p2).none() == old(p2).none(), final(p2).due() == old(p2).due(), final(p2).drained() == old(p2).drained(),
/*@ item src/source/internal.rs macro atom_set_telem
rw `p1.swap($*x)` => `p2.swap(&p1, $*x)`
rw `p1.load($*x)` => `p2.load(&p1, $*x)`
rw `p1.store($*x)` => `p2.store(&p1, $*x)`
rw `p1.fetch_sub($*x)` => `p2.fetch_sub(&p1, $*x)`
rw `util::send(&mut p2, $*e)` => `util::send(p2, $*e)`
rw `let now = time::now();` => `broadcast use {strings, floats}; let now = time::now();`
@*/
pub struct Internal;
/// what holds when a second has passed and all was looked at
pub open spec fn looked_at(w: util::Channel) -> bool {
    w.owed() is Nothing && (w.due() ==> w.drained() && (w.none() || every_counter(w.looked())))
}
impl Internal {
/*@ rewrites
rw `error!($*a)` => `()`
rw `; telem = $*s.iter().fold(telem, |acc, &(k, v)| $*b);` => `; for (k, v) in $*s { let acc = telem; telem = $*b; }`
@*/
/*@ fn src/source/internal.rs Source@Internal.run
attr: #[verifier::exec_allows_no_decreases_clause]
sig:
    pub fn run(self, chans: &mut util::Channel, poller: mio::Poll)
rw `std::time::Duration::from_millis($*a)` => `millis($*a)`
rw `poller.poll($*a)` => `poller.poll($*a, chans)`
rw `util::send(&mut chans, $*e)` => `util::send(chans, $*e)`
rw `Q.pop()` => `Q.pop(chans)`
rw `atom_telem!($*a)` => `atom_telem($*a)`
rw `atom_set_telem!($*a)` => `atom_set_telem($*a)`
spec:
    requires !old(chans).ended(), old(chans).owed() is Nothing, !old(chans).due()
    ensures final(chans).ended()
loop 1 loop:
    invariant !chans.ended(), looked_at(*chans),
at loop 1 start:
    broadcast use {strings, floats};
loop 2 while:
    invariant !chans.ended(), !chans.none(), chans.owed() is Nothing, chans.due(), every_counter(chans.looked()),
    ensures chans.drained(),
loop 3 while:
    invariant !chans.ended(), chans.none(), chans.due(), !(chans.owed() is Count),
    ensures chans.drained(), chans.owed() is Nothing,
at fn-start:
    broadcast use {strings, floats};
@*/
}
/// the tags among name and value pairs, a later one of a name over an earlier
pub open spec fn tags_of(m: Seq<(&str, &str)>) -> Map<Str, Str>
    decreases m.len()
{ if m.len() == 0 { Map::empty() } else { tags_of(m.drop_last()).insert(m.last().0@, m.last().1@) } }
pub open spec fn given_tags<'a>(m: Option<Vec<(&'a str, &'a str)>>) -> Seq<(&'a str, &'a str)> { match m { Some(v) => v@, None => Seq::empty() } }
#[verifier::external_body]
pub fn or_none<'a>(m: Option<Vec<(&'a str, &'a str)>>) -> (r: Vec<(&'a str, &'a str)>) ensures r@ == given_tags(m) { unimplemented!() }
#[verifier::external_body]
pub fn owned(s: &str) -> (r: String) ensures r@ == s@ { unimplemented!() }
/*@ fn src/source/internal.rs report_full_telemetry
sig:
    pub fn report_full_telemetry(name: &str, value: f64, metadata: Option<Vec<(&str, &str)>>, given: &mut Given)
rw `Q.push(telem);` => `Q.push(telem, given);`
rw `metadata.unwrap_or_default()` => `or_none(metadata)`
rw `acc.overlay_tag(k, v)` => `acc.overlay_tag(owned(k), owned(v))`
spec:
    ensures
        exists|t: Telemetry| final(given).put() == #[trigger] old(given).put().push(t) && t.name@ == name@ && t.value is Some && agg(t.value->0) == Agg::Sum(value)
            && !t.persist && own_tags(t.tags) =~= tags_of(given_tags(metadata)),
loop 1 for iter it:
    invariant
        it.seq() == given_tags(metadata), own_tags(telem.tags) == tags_of(it.seq().take(it.index() as int)),
        telem.name@ == name@, telem.value is Some, agg(telem.value->0) == Agg::Sum(value), !telem.persist,
at loop 1 end:
    proof { assert(it.seq().take(it.index() + 1).drop_last() =~= it.seq().take(it.index() as int)); }
at loop 1 after:
    proof { assert(given_tags(metadata).take(given_tags(metadata).len() as int) =~= given_tags(metadata)); }
at fn-start:
    broadcast use {strings, floats};
@*/
fn main() {}
}
