// C24: the real internal source, its counters being the witness's own, with real forwards.
// @splice src/source/internal.rs C24_in.rs C24.rs
#[macro_use]
extern crate lazy_static;
#[macro_use]
extern crate serde_derive;
#[macro_use]
extern crate log;
extern crate cernan;
extern crate coco;
extern crate hopper;
extern crate mio;
extern crate serde;
use cernan::{metric, time};
#[path = "wit.rs"]
mod wit;
#[path = "ev.rs"]
mod ev;
#[path = "pts.rs"]
mod pts;
mod util {
    pub use cernan::util::*; 
    use std::sync::atomic::AtomicUsize; pub static UTIL_SEND_HOPPER_ERROR_FULL: AtomicUsize = AtomicUsize::new(0);
}
mod source {
    pub use cernan::source::Source; 
    pub mod graphite { use std::sync::atomic::AtomicUsize; pub static GRAPHITE_NEW_PEER: AtomicUsize = AtomicUsize::new(0); pub static GRAPHITE_GOOD_PACKET: AtomicUsize = AtomicUsize::new(0); pub static GRAPHITE_TELEM: AtomicUsize = AtomicUsize::new(0); pub static GRAPHITE_BAD_PACKET: AtomicUsize = AtomicUsize::new(0); }
    pub mod statsd { use std::sync::atomic::AtomicUsize; pub static STATSD_GOOD_PACKET: AtomicUsize = AtomicUsize::new(0); pub static STATSD_BAD_PACKET: AtomicUsize = AtomicUsize::new(0); }
    pub mod native { use std::sync::atomic::AtomicUsize; pub static NATIVE_PAYLOAD_SUCCESS_SUM: AtomicUsize = AtomicUsize::new(0); pub static NATIVE_PAYLOAD_PARSE_FAILURE_SUM: AtomicUsize = AtomicUsize::new(0); }
    pub mod avro { use std::sync::atomic::AtomicUsize; pub static AVRO_PAYLOAD_SUCCESS_SUM: AtomicUsize = AtomicUsize::new(0); pub static AVRO_PAYLOAD_PARSE_FAILURE_SUM: AtomicUsize = AtomicUsize::new(0); pub static AVRO_PAYLOAD_IO_FAILURE_SUM: AtomicUsize = AtomicUsize::new(0); }
}
mod sink {
    
    pub mod elasticsearch { use std::sync::atomic::AtomicUsize; pub static ELASTIC_RECORDS_DELIVERY: AtomicUsize = AtomicUsize::new(0); pub static ELASTIC_INTERNAL_BUFFER_LEN: AtomicUsize = AtomicUsize::new(0); pub static ELASTIC_RECORDS_TOTAL_DELIVERED: AtomicUsize = AtomicUsize::new(0); pub static ELASTIC_RECORDS_TOTAL_FAILED: AtomicUsize = AtomicUsize::new(0); pub static ELASTIC_ERROR_UNKNOWN: AtomicUsize = AtomicUsize::new(0); pub static ELASTIC_BULK_ACTION_INDEX_ERR: AtomicUsize = AtomicUsize::new(0); pub static ELASTIC_BULK_ACTION_CREATE_ERR: AtomicUsize = AtomicUsize::new(0); pub static ELASTIC_BULK_ACTION_UPDATE_ERR: AtomicUsize = AtomicUsize::new(0); pub static ELASTIC_BULK_ACTION_DELETE_ERR: AtomicUsize = AtomicUsize::new(0); pub static ELASTIC_ERROR_API_INDEX_NOT_FOUND: AtomicUsize = AtomicUsize::new(0); pub static ELASTIC_ERROR_API_PARSING: AtomicUsize = AtomicUsize::new(0); pub static ELASTIC_ERROR_API_MAPPER_PARSING: AtomicUsize = AtomicUsize::new(0); pub static ELASTIC_ERROR_API_ACTION_REQUEST_VALIDATION: AtomicUsize = AtomicUsize::new(0); pub static ELASTIC_ERROR_API_DOCUMENT_MISSING: AtomicUsize = AtomicUsize::new(0); pub static ELASTIC_ERROR_API_INDEX_ALREADY_EXISTS: AtomicUsize = AtomicUsize::new(0); pub static ELASTIC_ERROR_API_UNKNOWN: AtomicUsize = AtomicUsize::new(0); pub static ELASTIC_ERROR_CLIENT: AtomicUsize = AtomicUsize::new(0); }
    pub mod wavefront { use std::sync::atomic::AtomicUsize; pub static WAVEFRONT_CONNECT_ATTEMPTS: AtomicUsize = AtomicUsize::new(0); pub static WAVEFRONT_AGGR_STORED_VALUES: AtomicUsize = AtomicUsize::new(0); pub static WAVEFRONT_AGGR_HISTO: AtomicUsize = AtomicUsize::new(0); pub static WAVEFRONT_AGGR_SUM: AtomicUsize = AtomicUsize::new(0); pub static WAVEFRONT_AGGR_SET: AtomicUsize = AtomicUsize::new(0); pub static WAVEFRONT_AGGR_SUMMARIZE: AtomicUsize = AtomicUsize::new(0); pub static WAVEFRONT_AGGR_TOT_PERCENT: AtomicUsize = AtomicUsize::new(0); pub static WAVEFRONT_DELIVERY_SUCCESS: AtomicUsize = AtomicUsize::new(0); pub static WAVEFRONT_DELIVERY_FAILURE: AtomicUsize = AtomicUsize::new(0); pub static WAVEFRONT_VALVE_CLOSED: AtomicUsize = AtomicUsize::new(0); pub static WAVEFRONT_VALVE_OPEN: AtomicUsize = AtomicUsize::new(0); }
    pub mod prometheus { use std::sync::atomic::AtomicUsize; pub static PROMETHEUS_AGGR_WINDOWED_PURGED: AtomicUsize = AtomicUsize::new(0); pub static PROMETHEUS_RESPONSE_DELAY_SUM: AtomicUsize = AtomicUsize::new(0); pub static PROMETHEUS_AGGR_REPORTABLE: AtomicUsize = AtomicUsize::new(0); pub static PROMETHEUS_REPORT_SUCCESS: AtomicUsize = AtomicUsize::new(0); pub static PROMETHEUS_REPORT_ERROR: AtomicUsize = AtomicUsize::new(0); pub static PROMETHEUS_AGGR_REMAINING: AtomicUsize = AtomicUsize::new(0); }
    pub mod influxdb { use std::sync::atomic::AtomicUsize; pub static INFLUX_DELIVERY_ATTEMPTS: AtomicUsize = AtomicUsize::new(0); pub static INFLUX_SUCCESS: AtomicUsize = AtomicUsize::new(0); pub static INFLUX_FAILURE_CLIENT: AtomicUsize = AtomicUsize::new(0); pub static INFLUX_FAILURE_SERVER: AtomicUsize = AtomicUsize::new(0); }
    pub mod kafka { use std::sync::atomic::AtomicUsize; pub static KAFKA_PUBLISH_SUCCESS_SUM: AtomicUsize = AtomicUsize::new(0); pub static KAFKA_PUBLISH_RETRY_SUM: AtomicUsize = AtomicUsize::new(0); pub static KAFKA_PUBLISH_FAILURE_SUM: AtomicUsize = AtomicUsize::new(0); pub static KAFKA_PUBLISH_RETRY_FAILURE_SUM: AtomicUsize = AtomicUsize::new(0); }
}
mod filter {
    
    pub mod delay_filter { use std::sync::atomic::AtomicUsize; pub static DELAY_TELEM_ACCEPT: AtomicUsize = AtomicUsize::new(0); pub static DELAY_TELEM_REJECT: AtomicUsize = AtomicUsize::new(0); pub static DELAY_LOG_REJECT: AtomicUsize = AtomicUsize::new(0); pub static DELAY_LOG_ACCEPT: AtomicUsize = AtomicUsize::new(0); }
    pub mod json_encode_filter { use std::sync::atomic::AtomicUsize; pub static JSON_ENCODE_LOG_PROCESSED: AtomicUsize = AtomicUsize::new(0); pub static JSON_ENCODE_LOG_PARSED: AtomicUsize = AtomicUsize::new(0); }
}
#[path = "../.cache/splice/C24.rs"]
mod internal;
fn main() {
    wit::main(&[Case { name: "rounds", every: 1, run: internal::verif::rounds }, Case { name: "race", every: 3, run: internal::verif::race }]);
}
use wit::Case;
