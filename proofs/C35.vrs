// C35: cernan from its configuration to its end: the blocks of `main`, one by one, and the whole.
use vstd::prelude::*;
verus! {
global size_of usize == 8;
//@include inc/matrix.inc
#[verifier::external_body]
pub struct TagMap { _p: () }
#[verifier::external_body]
pub struct Regex { _p: () }
#[verifier::external_body]
pub struct PathBuf { _p: () }
pub mod metric { pub use super::TagMap; pub enum Event { Shutdown, Other } }
pub type Mask = Regex;
pub type Bounds = Vec<f64>;

/*@ item src/filter/delay_filter.rs struct DelayFilterConfig
@*/
/*@ item src/filter/flush_boundary_filter.rs struct FlushBoundaryFilterConfig
@*/
/*@ item src/filter/json_encode_filter.rs struct JSONEncodeFilterConfig
@*/
/*@ item src/filter/programmable_filter.rs struct ProgrammableFilterConfig
@*/
/*@ item src/sink/console.rs struct ConsoleConfig
@*/
/*@ item src/sink/elasticsearch.rs struct ElasticsearchConfig
@*/
/*@ item src/sink/influxdb.rs struct InfluxDBConfig
@*/
/*@ item src/sink/kafka.rs struct KafkaConfig
@*/
/*@ item src/sink/native.rs struct NativeConfig
@*/
/*@ item src/sink/null.rs struct NullConfig
@*/
/*@ item src/sink/prometheus.rs struct PrometheusConfig
@*/
/*@ item src/sink/wavefront.rs struct PadControl
@*/
/*@ item src/sink/wavefront.rs struct WavefrontConfig
@*/
/*@ item src/source/graphite.rs struct GraphiteConfig
@*/
/*@ item src/source/internal.rs struct InternalConfig
@*/
/*@ item src/source/native.rs struct NativeServerConfig
@*/
/*@ item src/source/statsd.rs struct StatsdParseConfig
@*/
/*@ item src/source/statsd.rs struct StatsdConfig
@*/
/*@ item src/source/tcp.rs struct TCPConfig
@*/
/*@ item src/source/file/file_server.rs struct FileServerConfig
@*/
/*@ item src/config.rs struct Args
@*/


// ---- what runs
/// a queue of events: its name, and the limits it is under
pub struct Queue { pub name: Str, pub dir: PathBuf, pub memory: usize, pub bytes: usize, pub files: usize }
pub mod hopper {
    use super::*;
    #[verifier::external_body]
    #[verifier::accept_recursive_types(T)]
    pub struct Sender<T> { _p: std::marker::PhantomData<T> }
    #[verifier::external_body]
    #[verifier::accept_recursive_types(T)]
    pub struct Receiver<T> { _p: std::marker::PhantomData<T> }
    impl<T> Clone for Sender<T> { #[verifier::external_body] fn clone(&self) -> Self { unimplemented!() } }
    impl<T> Sender<T> { pub uninterp spec fn q(&self) -> Queue; }
    impl<T> Receiver<T> { pub uninterp spec fn q(&self) -> Queue; }
    #[verifier::external_body]
    pub fn channel_with_explicit_capacity(name: &str, dir: &PathBuf, memory: usize, bytes: usize, files: usize) -> (r: Result<(Sender<metric::Event>, Receiver<metric::Event>), ()>)
        ensures r is Ok ==> r->Ok_0.0.q() == (Queue { name: name@, dir: *dir, memory, bytes, files }) && r->Ok_0.1.q() == r->Ok_0.0.q()
    { unimplemented!() }
}
pub type Receiver = hopper::Receiver<metric::Event>;
//@include inc/forwards.inc
impl NameSet {
    #[verifier::external_body]
    pub fn new() -> (r: Self) ensures r@ == Set::<Str>::empty() { unimplemented!() }
}
/// `unwrap` and `expect`: cernan refuses to run where nothing is there
pub trait Must: Sized {
    type Out;
    spec fn there(self) -> Option<Self::Out>;
    fn must(self) -> (r: Self::Out) ensures self.there() == Some(r);
}
impl<T> Must for Option<T> {
    type Out = T;
    open spec fn there(self) -> Option<T> { self }
    #[verifier::external_body]
    fn must(self) -> (r: T) { unimplemented!() }
}
impl<T, E> Must for Result<T, E> {
    type Out = T;
    open spec fn there(self) -> Option<T> { match self { Ok(t) => Some(t), Err(_) => None } }
    #[verifier::external_body]
    fn must(self) -> (r: T) { unimplemented!() }
}
/// `mem::replace(x, None)`
#[verifier::external_body]
pub fn taken<T>(x: &mut Option<T>) -> (r: Option<T>) ensures r == *old(x), *final(x) is None { unimplemented!() }
#[verifier::external_body]
pub fn taken_whole<T>(x: &mut T) -> (r: T) ensures r == *old(x) { unimplemented!() }
/// the entries of a map, each once
#[verifier::external_body]
pub fn each<'a, V>(m: &'a HashMap<String, V>) -> (r: Vec<(&'a String, &'a V)>) ensures lists(flat_ref(r@), m@) { unimplemented!() }
#[verifier::external_body]
pub fn all<V>(m: HashMap<String, V>) -> (r: Vec<(String, V)>) ensures lists(flat(r@), m@) { unimplemented!() }
#[verifier::external_body]
pub fn held<'a, V>(m: &'a HashMap<String, V>) -> (r: Vec<&'a V>)
    ensures exists|s: Seq<(Str, V)>| #[trigger] lists(s, m@) && r@.len() == s.len() && forall|i: int| 0 <= i < s.len() ==> *(#[trigger] r@[i]) == s[i].1
{ unimplemented!() }
#[verifier::external_body]
pub fn members(m: &NameSet) -> (r: Vec<&String>)
    ensures forall|n: Str| #[trigger] m@.contains(n) <==> exists|i: int| 0 <= i < r@.len() && (#[trigger] r@[i])@ == n,
        forall|i: int, j: int| 0 <= i < j < r@.len() ==> (#[trigger] r@[i])@ != (#[trigger] r@[j])@
{ unimplemented!() }
pub open spec fn has_text(v: Seq<String>, n: Str) -> bool { exists|i: int| 0 <= i < v.len() && (#[trigger] v[i])@ == n }
#[verifier::external_body]
pub fn within(v: &Vec<String>, n: &String) -> (r: bool) ensures r == has_text(v@, n@) { unimplemented!() }
impl<'a> It<&'a Vec<String>> {
    #[verifier::external_body]
    pub fn any<F: Fn(&'a Vec<String>) -> bool>(self, f: F) -> (r: bool)
        requires forall|i: int| 0 <= i < self.seq().len() ==> call_requires(f, (#[trigger] self.seq()[i],))
        ensures r ==> exists|i: int| 0 <= i < self.seq().len() && call_ensures(f, (#[trigger] self.seq()[i],), true),
            !r ==> forall|i: int| 0 <= i < self.seq().len() ==> call_ensures(f, (#[trigger] self.seq()[i],), false)
    { unimplemented!() }
}
impl HashMap<String, Vec<String>> {
    #[verifier::external_body]
    pub fn values<'a>(&'a self) -> (r: It<&'a Vec<String>>)
        ensures exists|s: Seq<(Str, Vec<String>)>| #[trigger] lists(s, self@) && r.seq().len() == s.len() && forall|i: int| 0 <= i < s.len() ==> *(#[trigger] r.seq()[i]) == s[i].1
    { unimplemented!() }
}
/// a component's settings
pub enum Cfg { Null(NullConfig), Console(ConsoleConfig), Wavefront(WavefrontConfig), Prometheus(PrometheusConfig), InfluxDB(InfluxDBConfig), Native(NativeConfig), Elasticsearch(ElasticsearchConfig), Kafka(KafkaConfig), ProgrammableFilter(ProgrammableFilterConfig), DelayFilter(DelayFilterConfig), JSONEncodeFilter(JSONEncodeFilterConfig), FlushBoundaryFilter(FlushBoundaryFilterConfig), NativeServer(NativeServerConfig), Internal(InternalConfig), Statsd(StatsdConfig), Graphite(GraphiteConfig), Avro(TCPConfig), FileServer(FileServerConfig) }
/// a component at work: its settings, the queue it reads, who it is told forwards to it, and the queues it writes
pub struct Job { pub cfg: Cfg, pub reads: Option<Queue>, pub from: Seq<Str>, pub to: Seq<Queue> }
pub open spec fn texts(v: Seq<String>) -> Seq<Str> { v.map_values(|s: String| s@) }
pub open spec fn queues(v: Seq<Sender>) -> Seq<Queue> { v.map_values(|s: Sender| s.q()) }
#[verifier::external_body]
pub struct ThreadHandle { _p: () }
impl ThreadHandle {
    pub uninterp spec fn job(&self) -> Job;
    /// asked to end, and waited for
    #[verifier::external_body]
    pub fn shutdown(self, w: &mut World)
        requires old(w).signalled(), !old(w).told_any()
        ensures final(w).signalled(), !final(w).told_any(), final(w).stopped() == old(w).stopped().insert(self.job()), final(w).joined() == old(w).joined(), final(w).told() == old(w).told(), final(w).timer() == old(w).timer(), final(w).clock() == old(w).clock()
    { unimplemented!() }
    #[verifier::external_body]
    pub fn join(self, w: &mut World)
        requires old(w).told_any()
        ensures final(w).joined() == old(w).joined().insert(self.job()), final(w).signalled() == old(w).signalled(), final(w).told_any(), final(w).told() == old(w).told(), final(w).stopped() == old(w).stopped(), final(w).timer() == old(w).timer(), final(w).clock() == old(w).clock()
    { unimplemented!() }
}
/// the configuration file of the command line
pub uninterp spec fn asked() -> Str;
/// what a configuration file states (C31)
pub uninterp spec fn configured(p: Str) -> Args;
/// what has been done to the threads
#[verifier::external_body]
pub struct World { _p: () }
impl World {
    pub uninterp spec fn signalled(&self) -> bool;
    pub uninterp spec fn stopped(&self) -> Set<Job>;
    pub uninterp spec fn told_any(&self) -> bool;
    pub uninterp spec fn told(&self) -> Seq<Queue>;
    pub uninterp spec fn joined(&self) -> Set<Job>;
    /// where the flush pulses go
    pub uninterp spec fn timer(&self) -> Option<Seq<Queue>>;
    pub uninterp spec fn clock(&self) -> bool;
    #[verifier::external_body]
    pub fn start_timer(&mut self, to: Vec<Sender>)
        requires old(self).timer() is None, !old(self).signalled()
        ensures final(self).timer() == Some(queues(to@)), !final(self).signalled(), final(self).told_any() == old(self).told_any(), final(self).clock() == old(self).clock(), final(self).stopped() == old(self).stopped(), final(self).joined() == old(self).joined()
    { unimplemented!() }
    #[verifier::external_body]
    pub fn start_clock(&mut self)
        requires !old(self).signalled()
        ensures final(self).clock(), final(self).timer() == old(self).timer(), !final(self).signalled(), final(self).told_any() == old(self).told_any(), final(self).stopped() == old(self).stopped(), final(self).joined() == old(self).joined()
    { unimplemented!() }
}
pub mod chan_signal {
    use super::*;
    pub enum Signal { INT, TERM }
    #[verifier::external_body]
    pub struct Signals { _p: () }
    impl Signals {
        pub uninterp spec fn of(&self) -> Seq<Signal>;
        /// waits for one of them
        #[verifier::external_body]
        pub fn recv(&self, w: &mut World) -> (r: Option<Signal>)
            requires self.of().contains(Signal::INT), self.of().contains(Signal::TERM)
            ensures final(w).signalled(), final(w).timer() == old(w).timer(), final(w).clock() == old(w).clock(), final(w).told_any() == old(w).told_any(), final(w).stopped() == old(w).stopped(), final(w).joined() == old(w).joined()
        { unimplemented!() }
    }
    #[verifier::external_body]
    pub fn notify(s: &[Signal]) -> (r: Signals) ensures r.of() == s@ { unimplemented!() }
}
pub mod cernan {
    pub mod thread { pub use super::super::ThreadHandle; }
    pub mod util {
        use super::super::*;
        pub type Channel = Vec<Sender>;
        #[verifier::external_body]
        pub fn send(chan: &mut Vec<Sender>, ev: metric::Event, w: &mut World)
            requires ev == metric::Event::Shutdown, old(w).signalled(), !old(w).told_any()
            ensures final(w).told_any(), final(w).told() == queues(old(chan)@), final(w).signalled(), final(w).stopped() == old(w).stopped(), final(w).joined() == old(w).joined(), final(w).timer() == old(w).timer(), final(w).clock() == old(w).clock()
        { unimplemented!() }
    }
    pub mod config {
        use super::super::*;
        #[verifier::external_body]
        pub fn parse_args() -> (r: (u64, String)) ensures r.1@ == asked() { unimplemented!() }
        /// C31: a configuration file yields the topology it states, every component under its section's name
        #[verifier::external_body]
        pub fn parse_config(p: &str) -> (r: Args) ensures r == configured(p@), well_named(r) { unimplemented!() }
    }
    /// constructors and starters of the components; what each then does is C07 to C24, C30, C33 and C34

    pub mod sink {
        use super::super::*;
        #[verifier::external_body]
        pub struct Null { _p: () }
        impl Null {
            pub uninterp spec fn job(&self) -> Job;
            #[verifier::external_body]
            pub fn new(recv: Receiver, from: Vec<String>, c: NullConfig) -> (r: Self) ensures r.job() == (Job { cfg: Cfg::Null(c), reads: Some(recv.q()), from: texts(from@), to: Seq::empty() }) { unimplemented!() }
            #[verifier::external_body]
            pub fn run(self) -> (r: ThreadHandle) ensures r.job() == self.job() { unimplemented!() }
        }
        #[verifier::external_body]
        pub struct Console { _p: () }
        impl Console {
            pub uninterp spec fn job(&self) -> Job;
            #[verifier::external_body]
            pub fn new(recv: Receiver, from: Vec<String>, c: ConsoleConfig) -> (r: Self) ensures r.job() == (Job { cfg: Cfg::Console(c), reads: Some(recv.q()), from: texts(from@), to: Seq::empty() }) { unimplemented!() }
            #[verifier::external_body]
            pub fn run(self) -> (r: ThreadHandle) ensures r.job() == self.job() { unimplemented!() }
        }
        #[verifier::external_body]
        pub struct Wavefront { _p: () }
        impl Wavefront {
            pub uninterp spec fn job(&self) -> Job;
            #[verifier::external_body]
            pub fn new(recv: Receiver, from: Vec<String>, c: WavefrontConfig) -> (r: Self) ensures r.job() == (Job { cfg: Cfg::Wavefront(c), reads: Some(recv.q()), from: texts(from@), to: Seq::empty() }) { unimplemented!() }
            #[verifier::external_body]
            pub fn run(self) -> (r: ThreadHandle) ensures r.job() == self.job() { unimplemented!() }
        }
        #[verifier::external_body]
        pub struct Prometheus { _p: () }
        impl Prometheus {
            pub uninterp spec fn job(&self) -> Job;
            #[verifier::external_body]
            pub fn new(recv: Receiver, from: Vec<String>, c: PrometheusConfig) -> (r: Self) ensures r.job() == (Job { cfg: Cfg::Prometheus(c), reads: Some(recv.q()), from: texts(from@), to: Seq::empty() }) { unimplemented!() }
            #[verifier::external_body]
            pub fn run(self) -> (r: ThreadHandle) ensures r.job() == self.job() { unimplemented!() }
        }
        #[verifier::external_body]
        pub struct InfluxDB { _p: () }
        impl InfluxDB {
            pub uninterp spec fn job(&self) -> Job;
            #[verifier::external_body]
            pub fn new(recv: Receiver, from: Vec<String>, c: InfluxDBConfig) -> (r: Self) ensures r.job() == (Job { cfg: Cfg::InfluxDB(c), reads: Some(recv.q()), from: texts(from@), to: Seq::empty() }) { unimplemented!() }
            #[verifier::external_body]
            pub fn run(self) -> (r: ThreadHandle) ensures r.job() == self.job() { unimplemented!() }
        }
        #[verifier::external_body]
        pub struct Native { _p: () }
        impl Native {
            pub uninterp spec fn job(&self) -> Job;
            #[verifier::external_body]
            pub fn new(recv: Receiver, from: Vec<String>, c: NativeConfig) -> (r: Self) ensures r.job() == (Job { cfg: Cfg::Native(c), reads: Some(recv.q()), from: texts(from@), to: Seq::empty() }) { unimplemented!() }
            #[verifier::external_body]
            pub fn run(self) -> (r: ThreadHandle) ensures r.job() == self.job() { unimplemented!() }
        }
        #[verifier::external_body]
        pub struct Elasticsearch { _p: () }
        impl Elasticsearch {
            pub uninterp spec fn job(&self) -> Job;
            #[verifier::external_body]
            pub fn new(recv: Receiver, from: Vec<String>, c: ElasticsearchConfig) -> (r: Self) ensures r.job() == (Job { cfg: Cfg::Elasticsearch(c), reads: Some(recv.q()), from: texts(from@), to: Seq::empty() }) { unimplemented!() }
            #[verifier::external_body]
            pub fn run(self) -> (r: ThreadHandle) ensures r.job() == self.job() { unimplemented!() }
        }
        #[verifier::external_body]
        pub struct Kafka { _p: () }
        impl Kafka {
            pub uninterp spec fn job(&self) -> Job;
            #[verifier::external_body]
            pub fn new(recv: Receiver, from: Vec<String>, c: KafkaConfig) -> (r: Self) ensures r.job() == (Job { cfg: Cfg::Kafka(c), reads: Some(recv.q()), from: texts(from@), to: Seq::empty() }) { unimplemented!() }
            #[verifier::external_body]
            pub fn run(self) -> (r: ThreadHandle) ensures r.job() == self.job() { unimplemented!() }
        }
    }
    pub mod filter {
        use super::super::*;
        #[verifier::external_body]
        pub struct ProgrammableFilter { _p: () }
        impl ProgrammableFilter {
            pub uninterp spec fn cfg(&self) -> Cfg;
            #[verifier::external_body]
            pub fn new(c: ProgrammableFilterConfig) -> (r: Self) ensures r.cfg() == Cfg::ProgrammableFilter(c) { unimplemented!() }
            /// `run` in a thread of its own
            #[verifier::external_body]
            pub fn spawned(self, recv: Receiver, from: Vec<String>, to: Vec<Sender>) -> (r: ThreadHandle) ensures r.job() == (Job { cfg: self.cfg(), reads: Some(recv.q()), from: texts(from@), to: queues(to@) }) { unimplemented!() }
        }
        #[verifier::external_body]
        pub struct DelayFilter { _p: () }
        impl DelayFilter {
            pub uninterp spec fn cfg(&self) -> Cfg;
            #[verifier::external_body]
            pub fn new(c: &DelayFilterConfig) -> (r: Self) ensures r.cfg() == Cfg::DelayFilter(*c) { unimplemented!() }
            /// `run` in a thread of its own
            #[verifier::external_body]
            pub fn spawned(self, recv: Receiver, from: Vec<String>, to: Vec<Sender>) -> (r: ThreadHandle) ensures r.job() == (Job { cfg: self.cfg(), reads: Some(recv.q()), from: texts(from@), to: queues(to@) }) { unimplemented!() }
        }
        #[verifier::external_body]
        pub struct JSONEncodeFilter { _p: () }
        impl JSONEncodeFilter {
            pub uninterp spec fn cfg(&self) -> Cfg;
            #[verifier::external_body]
            pub fn new(c: JSONEncodeFilterConfig) -> (r: Self) ensures r.cfg() == Cfg::JSONEncodeFilter(c) { unimplemented!() }
            /// `run` in a thread of its own
            #[verifier::external_body]
            pub fn spawned(self, recv: Receiver, from: Vec<String>, to: Vec<Sender>) -> (r: ThreadHandle) ensures r.job() == (Job { cfg: self.cfg(), reads: Some(recv.q()), from: texts(from@), to: queues(to@) }) { unimplemented!() }
        }
        #[verifier::external_body]
        pub struct FlushBoundaryFilter { _p: () }
        impl FlushBoundaryFilter {
            pub uninterp spec fn cfg(&self) -> Cfg;
            #[verifier::external_body]
            pub fn new(c: &FlushBoundaryFilterConfig) -> (r: Self) ensures r.cfg() == Cfg::FlushBoundaryFilter(*c) { unimplemented!() }
            /// `run` in a thread of its own
            #[verifier::external_body]
            pub fn spawned(self, recv: Receiver, from: Vec<String>, to: Vec<Sender>) -> (r: ThreadHandle) ensures r.job() == (Job { cfg: self.cfg(), reads: Some(recv.q()), from: texts(from@), to: queues(to@) }) { unimplemented!() }
        }
    }
    pub mod source {
        use super::super::*;
        #[verifier::external_body]
        pub struct NativeServer { _p: () }
        impl NativeServer {
            pub uninterp spec fn job(&self) -> Job;
            #[verifier::external_body]
            pub fn new(to: Vec<Sender>, c: TCPConfig) -> (r: Self) ensures r.job() == (Job { cfg: Cfg::NativeServer(native_of_tcp(c)), reads: None, from: Seq::empty(), to: queues(to@) }) { unimplemented!() }
            #[verifier::external_body]
            pub fn run(self) -> (r: ThreadHandle) ensures r.job() == self.job() { unimplemented!() }
        }
        #[verifier::external_body]
        pub struct Internal { _p: () }
        impl Internal {
            pub uninterp spec fn job(&self) -> Job;
            #[verifier::external_body]
            pub fn new(to: Vec<Sender>, c: InternalConfig) -> (r: Self) ensures r.job() == (Job { cfg: Cfg::Internal(c), reads: None, from: Seq::empty(), to: queues(to@) }) { unimplemented!() }
            #[verifier::external_body]
            pub fn run(self) -> (r: ThreadHandle) ensures r.job() == self.job() { unimplemented!() }
        }
        #[verifier::external_body]
        pub struct Statsd { _p: () }
        impl Statsd {
            pub uninterp spec fn job(&self) -> Job;
            #[verifier::external_body]
            pub fn new(to: Vec<Sender>, c: StatsdConfig) -> (r: Self) ensures r.job() == (Job { cfg: Cfg::Statsd(c), reads: None, from: Seq::empty(), to: queues(to@) }) { unimplemented!() }
            #[verifier::external_body]
            pub fn run(self) -> (r: ThreadHandle) ensures r.job() == self.job() { unimplemented!() }
        }
        #[verifier::external_body]
        pub struct Graphite { _p: () }
        impl Graphite {
            pub uninterp spec fn job(&self) -> Job;
            #[verifier::external_body]
            pub fn new(to: Vec<Sender>, c: TCPConfig) -> (r: Self) ensures r.job() == (Job { cfg: Cfg::Graphite(graphite_of_tcp(c)), reads: None, from: Seq::empty(), to: queues(to@) }) { unimplemented!() }
            #[verifier::external_body]
            pub fn run(self) -> (r: ThreadHandle) ensures r.job() == self.job() { unimplemented!() }
        }
        #[verifier::external_body]
        pub struct Avro { _p: () }
        impl Avro {
            pub uninterp spec fn job(&self) -> Job;
            #[verifier::external_body]
            pub fn new(to: Vec<Sender>, c: TCPConfig) -> (r: Self) ensures r.job() == (Job { cfg: Cfg::Avro(c), reads: None, from: Seq::empty(), to: queues(to@) }) { unimplemented!() }
            #[verifier::external_body]
            pub fn run(self) -> (r: ThreadHandle) ensures r.job() == self.job() { unimplemented!() }
        }
        #[verifier::external_body]
        pub struct FileServer { _p: () }
        impl FileServer {
            pub uninterp spec fn job(&self) -> Job;
            #[verifier::external_body]
            pub fn new(to: Vec<Sender>, c: FileServerConfig) -> (r: Self) ensures r.job() == (Job { cfg: Cfg::FileServer(c), reads: None, from: Seq::empty(), to: queues(to@) }) { unimplemented!() }
            #[verifier::external_body]
            pub fn run(self) -> (r: ThreadHandle) ensures r.job() == self.job() { unimplemented!() }
        }
    }
}
pub open spec fn native_of_tcp(c: TCPConfig) -> NativeServerConfig { NativeServerConfig { ip: c.host, port: c.port, forwards: c.forwards, config_path: c.config_path } }
pub open spec fn graphite_of_tcp(c: TCPConfig) -> GraphiteConfig { GraphiteConfig { host: c.host, port: c.port, forwards: c.forwards, config_path: c.config_path } }
/*@ fn src/source/native.rs From@TCPConfig.from
as: tcp_of_native
sig:
    pub fn tcp_of_native(item: NativeServerConfig) -> (r: TCPConfig)
spec:
    ensures native_of_tcp(r) == item
@*/
/*@ fn src/source/graphite.rs From@TCPConfig.from
as: tcp_of_graphite
sig:
    pub fn tcp_of_graphite(item: GraphiteConfig) -> (r: TCPConfig)
spec:
    ensures graphite_of_tcp(r) == item
@*/

// ---- what the configuration states
/// the section a name belongs to, by its prefix
pub uninterp spec fn kind_of(n: Str) -> int;
pub open spec fn named(p: Option<String>, k: Str) -> bool { p is Some && p->0@ == k }

pub open spec fn stated_0(args: Args, k: Str) -> Option<Cfg> { if args.null is Some && args.null->0.config_path@ == k { Some(Cfg::Null(args.null->0)) } else { None } }
pub open spec fn stated_1(args: Args, k: Str) -> Option<Cfg> { if args.console is Some && named(args.console->0.config_path, k) { Some(Cfg::Console(args.console->0)) } else { None } }
pub open spec fn stated_2(args: Args, k: Str) -> Option<Cfg> { if args.wavefront is Some && named(args.wavefront->0.config_path, k) { Some(Cfg::Wavefront(args.wavefront->0)) } else { None } }
pub open spec fn stated_3(args: Args, k: Str) -> Option<Cfg> { if args.prometheus is Some && named(args.prometheus->0.config_path, k) { Some(Cfg::Prometheus(args.prometheus->0)) } else { None } }
pub open spec fn stated_4(args: Args, k: Str) -> Option<Cfg> { if args.influxdb is Some && named(args.influxdb->0.config_path, k) { Some(Cfg::InfluxDB(args.influxdb->0)) } else { None } }
pub open spec fn stated_5(args: Args, k: Str) -> Option<Cfg> { if args.native_sink_config is Some && named(args.native_sink_config->0.config_path, k) { Some(Cfg::Native(args.native_sink_config->0)) } else { None } }
pub open spec fn stated_6(args: Args, k: Str) -> Option<Cfg> { if args.elasticsearch is Some && named(args.elasticsearch->0.config_path, k) { Some(Cfg::Elasticsearch(args.elasticsearch->0)) } else { None } }
pub open spec fn stated_7(args: Args, k: Str) -> Option<Cfg> { if args.kafkas is Some && exists|i: int| 0 <= i < args.kafkas->0@.len() && named((#[trigger] args.kafkas->0@[i]).config_path, k) { Some(Cfg::Kafka(args.kafkas->0@[choose|i: int| 0 <= i < args.kafkas->0@.len() && named((#[trigger] args.kafkas->0@[i]).config_path, k)])) } else { None } }
pub open spec fn stated_8(args: Args, k: Str) -> Option<Cfg> { if args.programmable_filters is Some && args.programmable_filters->0@.contains_key(k) { Some(Cfg::ProgrammableFilter(args.programmable_filters->0@[k])) } else { None } }
pub open spec fn stated_9(args: Args, k: Str) -> Option<Cfg> { if args.delay_filters is Some && args.delay_filters->0@.contains_key(k) { Some(Cfg::DelayFilter(args.delay_filters->0@[k])) } else { None } }
pub open spec fn stated_10(args: Args, k: Str) -> Option<Cfg> { if args.json_encode_filters is Some && args.json_encode_filters->0@.contains_key(k) { Some(Cfg::JSONEncodeFilter(args.json_encode_filters->0@[k])) } else { None } }
pub open spec fn stated_11(args: Args, k: Str) -> Option<Cfg> { if args.flush_boundary_filters is Some && args.flush_boundary_filters->0@.contains_key(k) { Some(Cfg::FlushBoundaryFilter(args.flush_boundary_filters->0@[k])) } else { None } }
pub open spec fn stated_12(args: Args, k: Str) -> Option<Cfg> { if args.native_server_config is Some && args.native_server_config->0@.contains_key(k) { Some(Cfg::NativeServer(args.native_server_config->0@[k])) } else { None } }
pub open spec fn stated_13(args: Args, k: Str) -> Option<Cfg> { if named(args.internal.config_path, k) { Some(Cfg::Internal(args.internal)) } else { None } }
pub open spec fn stated_14(args: Args, k: Str) -> Option<Cfg> { if args.statsds is Some && args.statsds->0@.contains_key(k) { Some(Cfg::Statsd(args.statsds->0@[k])) } else { None } }
pub open spec fn stated_15(args: Args, k: Str) -> Option<Cfg> { if args.graphites is Some && args.graphites->0@.contains_key(k) { Some(Cfg::Graphite(args.graphites->0@[k])) } else { None } }
pub open spec fn stated_16(args: Args, k: Str) -> Option<Cfg> { if args.avros is Some && args.avros->0@.contains_key(k) { Some(Cfg::Avro(args.avros->0@[k])) } else { None } }
pub open spec fn stated_17(args: Args, k: Str) -> Option<Cfg> { if args.files is Some && exists|i: int| 0 <= i < args.files->0@.len() && named((#[trigger] args.files->0@[i]).config_path, k) { Some(Cfg::FileServer(args.files->0@[choose|i: int| 0 <= i < args.files->0@.len() && named((#[trigger] args.files->0@[i]).config_path, k)])) } else { None } }
/// the component of a name
pub open spec fn stated(args: Args, k: Str) -> Option<Cfg> {
    if kind_of(k) == 0 { stated_0(args, k) } else if kind_of(k) == 1 { stated_1(args, k) } else if kind_of(k) == 2 { stated_2(args, k) } else if kind_of(k) == 3 { stated_3(args, k) } else if kind_of(k) == 4 { stated_4(args, k) } else if kind_of(k) == 5 { stated_5(args, k) } else if kind_of(k) == 6 { stated_6(args, k) } else if kind_of(k) == 7 { stated_7(args, k) } else if kind_of(k) == 8 { stated_8(args, k) } else if kind_of(k) == 9 { stated_9(args, k) } else if kind_of(k) == 10 { stated_10(args, k) } else if kind_of(k) == 11 { stated_11(args, k) } else if kind_of(k) == 12 { stated_12(args, k) } else if kind_of(k) == 13 { stated_13(args, k) } else if kind_of(k) == 14 { stated_14(args, k) } else if kind_of(k) == 15 { stated_15(args, k) } else if kind_of(k) == 16 { stated_16(args, k) } else if kind_of(k) == 17 { stated_17(args, k) } else { None }
}
/// what it forwards to
pub open spec fn forwards(c: Cfg) -> Seq<String> { match c { Cfg::ProgrammableFilter(c) => c.forwards@, Cfg::DelayFilter(c) => c.forwards@, Cfg::JSONEncodeFilter(c) => c.forwards@, Cfg::FlushBoundaryFilter(c) => c.forwards@, Cfg::NativeServer(c) => c.forwards@, Cfg::Internal(c) => c.forwards@, Cfg::Statsd(c) => c.forwards@, Cfg::Graphite(c) => c.forwards@, Cfg::Avro(c) => c.forwards@, Cfg::FileServer(c) => c.forwards@, _ => Seq::empty() } }
/// every component is under a name of its own, which is that of its section
pub open spec fn well_named(args: Args) -> bool {
    &&& (args.null is Some ==> kind_of(args.null->0.config_path@) == 0)
    &&& (args.console is Some ==> args.console->0.config_path is Some && kind_of(args.console->0.config_path->0@) == 1)
    &&& (args.wavefront is Some ==> args.wavefront->0.config_path is Some && kind_of(args.wavefront->0.config_path->0@) == 2)
    &&& (args.prometheus is Some ==> args.prometheus->0.config_path is Some && kind_of(args.prometheus->0.config_path->0@) == 3)
    &&& (args.influxdb is Some ==> args.influxdb->0.config_path is Some && kind_of(args.influxdb->0.config_path->0@) == 4)
    &&& (args.native_sink_config is Some ==> args.native_sink_config->0.config_path is Some && kind_of(args.native_sink_config->0.config_path->0@) == 5)
    &&& (args.elasticsearch is Some ==> args.elasticsearch->0.config_path is Some && kind_of(args.elasticsearch->0.config_path->0@) == 6)
    &&& (args.kafkas is Some ==> forall|i: int| 0 <= i < args.kafkas->0@.len() ==> (#[trigger] args.kafkas->0@[i]).config_path is Some && kind_of(args.kafkas->0@[i].config_path->0@) == 7)
    &&& (args.kafkas is Some ==> forall|i: int, j: int| 0 <= i < args.kafkas->0@.len() && 0 <= j < args.kafkas->0@.len() && (#[trigger] args.kafkas->0@[i]).config_path->0@ == (#[trigger] args.kafkas->0@[j]).config_path->0@ ==> i == j)
    &&& (args.programmable_filters is Some ==> forall|k: Str| #[trigger] args.programmable_filters->0@.contains_key(k) ==> kind_of(k) == 8 && named(args.programmable_filters->0@[k].config_path, k))
    &&& (args.delay_filters is Some ==> forall|k: Str| #[trigger] args.delay_filters->0@.contains_key(k) ==> kind_of(k) == 9 && named(args.delay_filters->0@[k].config_path, k))
    &&& (args.json_encode_filters is Some ==> forall|k: Str| #[trigger] args.json_encode_filters->0@.contains_key(k) ==> kind_of(k) == 10 && named(args.json_encode_filters->0@[k].config_path, k))
    &&& (args.flush_boundary_filters is Some ==> forall|k: Str| #[trigger] args.flush_boundary_filters->0@.contains_key(k) ==> kind_of(k) == 11 && named(args.flush_boundary_filters->0@[k].config_path, k))
    &&& (args.native_server_config is Some ==> forall|k: Str| #[trigger] args.native_server_config->0@.contains_key(k) ==> kind_of(k) == 12 && named(args.native_server_config->0@[k].config_path, k))
    &&& args.internal.config_path is Some && kind_of(args.internal.config_path->0@) == 13
    &&& (args.statsds is Some ==> forall|k: Str| #[trigger] args.statsds->0@.contains_key(k) ==> kind_of(k) == 14 && named(args.statsds->0@[k].config_path, k))
    &&& (args.graphites is Some ==> forall|k: Str| #[trigger] args.graphites->0@.contains_key(k) ==> kind_of(k) == 15 && named(args.graphites->0@[k].config_path, k))
    &&& (args.avros is Some ==> forall|k: Str| #[trigger] args.avros->0@.contains_key(k) ==> kind_of(k) == 16 && named(args.avros->0@[k].config_path, k))
    &&& (args.files is Some ==> forall|i: int| 0 <= i < args.files->0@.len() ==> (#[trigger] args.files->0@[i]).config_path is Some && kind_of(args.files->0@[i].config_path->0@) == 17)
    &&& (args.files is Some ==> forall|i: int, j: int| 0 <= i < args.files->0@.len() && 0 <= j < args.files->0@.len() && (#[trigger] args.files->0@[i]).config_path->0@ == (#[trigger] args.files->0@[j]).config_path->0@ ==> i == j)
}
/// `a` is configured to forward to `b`
pub open spec fn feeds(args: Args, a: Str, b: Str) -> bool { stated(args, a) is Some && has_text(forwards(stated(args, a)->0), b) }
pub open spec fn queue_of(args: Args, n: Str) -> Queue { Queue { name: n, dir: args.data_directory, memory: args.max_hopper_in_memory_bytes, bytes: args.max_hopper_queue_bytes, files: args.max_hopper_queue_files } }
/// sinks and filters read a queue
pub open spec fn reads(n: Str) -> bool { kind_of(n) < 12 }

// ---- the topology, laid down name by name
pub type Topo = Map<Str, Vec<String>>;
pub open spec fn of_kind(n: int) -> ISet<Str> { ISet::new(|k: Str| kind_of(k) == n) }
/// the names in `d` are there, with their forwards, queues and edges, and no others
#[verifier::opaque]
pub open spec fn laid(args: Args, t: Topo, g: Graph<Sender>, s: Map<Str, Sender>, r: Map<Str, Receiver>, d: ISet<Str>) -> bool {
    &&& forall|k: Str| #[trigger] t.contains_key(k) <==> d.contains(k) && stated(args, k) is Some
    &&& forall|k: Str| #[trigger] t.contains_key(k) ==> t[k]@ == forwards(stated(args, k)->0)
    &&& forall|k: Str| #[trigger] s.contains_key(k) <==> d.contains(k) && stated(args, k) is Some && reads(k)
    &&& forall|k: Str| #[trigger] s.contains_key(k) ==> s[k].q() == queue_of(args, k)
    &&& forall|k: Str| #[trigger] r.contains_key(k) <==> d.contains(k) && stated(args, k) is Some && reads(k)
    &&& forall|k: Str| #[trigger] r.contains_key(k) ==> r[k].q() == queue_of(args, k)
    &&& forall|a: Str, b: Str| #[trigger] edges_of(g, a).contains_key(b) <==> (d.contains(a) && feeds(args, a, b)) || (d.contains(b) && feeds(args, b, a))
    &&& forall|a: Str, b: Str| #[trigger] edges_of(g, a).contains_key(b) ==> edges_of(g, a)[b] is None
}
/// one name more
pub proof fn lay(args: Args, t: Topo, g: Graph<Sender>, s: Map<Str, Sender>, r: Map<Str, Receiver>, d: ISet<Str>, k: Str, f: Vec<String>)
    requires laid(args, t, g, s, r, d), !d.contains(k), stated(args, k) is Some, f@ == forwards(stated(args, k)->0)
    ensures
        !reads(k) ==> laid(args, t.insert(k, f), links(g, k, f@, None), s, r, d.insert(k)),
        f@.len() == 0 ==> links(g, k, f@, None) == g,
        forall|x: Sender, y: Receiver| reads(k) && x.q() == queue_of(args, k) && y.q() == queue_of(args, k) ==> #[trigger] laid(args, t.insert(k, f), links(g, k, f@, None), s.insert(k, x), r.insert(k, y), d.insert(k)),
{
    reveal(laid);
    let g2 = links(g, k, f@, None);
    let e = d.insert(k);
    assert forall|a: Str, b: Str| (#[trigger] edges_of(g2, a).contains_key(b) <==> (e.contains(a) && feeds(args, a, b)) || (e.contains(b) && feeds(args, b, a))) && (edges_of(g2, a).contains_key(b) ==> edges_of(g2, a)[b] is None) by {
        lemma_links::<Sender>(g, k, f@, None, a, b);
        assert(joins(k, f@, a, b) <==> (a == k && has_text(f@, b)) || (b == k && has_text(f@, a))) by {
            if joins(k, f@, a, b) { let i = choose|i: int| 0 <= i < f@.len() && joined(k, #[trigger] f@[i]@, a, b); }
            if a == k && has_text(f@, b) { let i = choose|i: int| 0 <= i < f@.len() && (#[trigger] f@[i])@ == b; assert(joined(k, f@[i]@, a, b)); }
            if b == k && has_text(f@, a) { let i = choose|i: int| 0 <= i < f@.len() && (#[trigger] f@[i])@ == a; assert(joined(k, f@[i]@, a, b)); }
        }
        assert(edges_of(g, a).contains_key(b) <==> (d.contains(a) && feeds(args, a, b)) || (d.contains(b) && feeds(args, b, a)));
    }
}
/// names nobody bears make no difference
pub proof fn same_laid(args: Args, t: Topo, g: Graph<Sender>, s: Map<Str, Sender>, r: Map<Str, Receiver>, d: ISet<Str>, e: ISet<Str>)
    requires laid(args, t, g, s, r, d), forall|k: Str| stated(args, k) is Some ==> d.contains(k) == e.contains(k)
    ensures laid(args, t, g, s, r, e)
{
    reveal(laid);
    assert forall|a: Str, b: Str| #[trigger] edges_of(g, a).contains_key(b) <==> (e.contains(a) && feeds(args, a, b)) || (e.contains(b) && feeds(args, b, a)) by {
        assert(edges_of(g, a).contains_key(b) <==> (d.contains(a) && feeds(args, a, b)) || (d.contains(b) && feeds(args, b, a)));
    }
}

// ---- the components, started name by name
/// `v` names just those that `p` holds of, each once
pub open spec fn exactly(v: Seq<Str>, p: spec_fn(Str) -> bool) -> bool {
    &&& v.no_duplicates()
    &&& forall|n: Str| #[trigger] v.contains(n) <==> p(n)
}
pub open spec fn exactly_queues(args: Args, v: Seq<Queue>, p: spec_fn(Str) -> bool) -> bool {
    &&& v.no_duplicates()
    &&& forall|i: int| 0 <= i < v.len() ==> #[trigger] v[i] == queue_of(args, v[i].name)
    &&& forall|n: Str| #[trigger] p(n) <==> v.contains(queue_of(args, n))
}
/// a component is at work as configured
pub open spec fn right(args: Args, n: Str, j: Job) -> bool {
    &&& stated(args, n) == Some(j.cfg)
    &&& j.reads == if reads(n) { Some(queue_of(args, n)) } else { None }
    // it is told of all who forward to it (but of itself, and of those it forwards to in turn)
    &&& reads(n) ==> exactly(j.from, |a: Str| feeds(args, a, n) && !feeds(args, n, a))
    // it has the queues of its forwards, each once
    &&& exactly_queues(args, j.to, |b: Str| feeds(args, n, b))
    // and its forwards are there
    &&& forall|b: Str| #[trigger] feeds(args, n, b) ==> stated(args, b) is Some && reads(b)
}
/// those not in `d` are yet to be started: their queues and edges are there
#[verifier::opaque]
pub open spec fn ready(args: Args, g: Graph<Sender>, s: Map<Str, Sender>, r: Map<Str, Receiver>, d: ISet<Str>) -> bool {
    &&& forall|k: Str| #[trigger] s.contains_key(k) <==> stated(args, k) is Some && reads(k)
    &&& forall|k: Str| #[trigger] s.contains_key(k) ==> s[k].q() == queue_of(args, k)
    &&& forall|k: Str| #[trigger] r.contains_key(k) ==> r[k].q() == queue_of(args, k)
    &&& forall|a: Str, b: Str| !d.contains(a) && stated(args, a) is Some ==> (#[trigger] edges_of(g, a).contains_key(b) <==> feeds(args, a, b) || feeds(args, b, a))
    &&& forall|a: Str, b: Str| !d.contains(a) && stated(args, a) is Some && #[trigger] edges_of(g, a).contains_key(b) ==> edges_of(g, a)[b] is None
}
/// the threads of the kinds from `lo` to `hi` that are in `d`
#[verifier::opaque]
pub open spec fn running(args: Args, h: Map<Str, ThreadHandle>, lo: int, hi: int, d: ISet<Str>) -> bool {
    &&& forall|k: Str| #[trigger] h.contains_key(k) <==> d.contains(k) && stated(args, k) is Some && lo <= kind_of(k) < hi
    &&& forall|k: Str| #[trigger] h.contains_key(k) ==> right(args, k, h[k].job())
}
pub proof fn same_ready(args: Args, g: Graph<Sender>, s: Map<Str, Sender>, r: Map<Str, Receiver>, d: ISet<Str>, e: ISet<Str>)
    requires ready(args, g, s, r, d), forall|k: Str| stated(args, k) is Some ==> d.contains(k) == e.contains(k)
    ensures ready(args, g, s, r, e)
{ reveal(ready); }
pub proof fn same_running(args: Args, h: Map<Str, ThreadHandle>, lo: int, hi: int, d: ISet<Str>, e: ISet<Str>)
    requires running(args, h, lo, hi, d), forall|k: Str| stated(args, k) is Some && lo <= kind_of(k) < hi ==> d.contains(k) == e.contains(k)
    ensures running(args, h, lo, hi, e)
{ reveal(running); }
pub open spec fn pulsed(args: Args, f: Set<Str>, d: ISet<Str>) -> bool { forall|b: Str| #[trigger] f.contains(b) <==> exists|a: Str| d.contains(a) && !reads(a) && #[trigger] feeds(args, a, b) }
pub proof fn same_pulsed(args: Args, f: Set<Str>, d: ISet<Str>, e: ISet<Str>)
    requires pulsed(args, f, d), forall|k: Str| stated(args, k) is Some && !reads(k) ==> d.contains(k) == e.contains(k)
    ensures pulsed(args, f, e)
{
    assert forall|b: Str| #[trigger] f.contains(b) <==> exists|a: Str| e.contains(a) && !reads(a) && #[trigger] feeds(args, a, b) by {
        if f.contains(b) { let a = choose|a: Str| d.contains(a) && !reads(a) && #[trigger] feeds(args, a, b); assert(e.contains(a)); }
        if exists|a: Str| e.contains(a) && !reads(a) && #[trigger] feeds(args, a, b) { let a = choose|a: Str| e.contains(a) && !reads(a) && #[trigger] feeds(args, a, b); assert(d.contains(a)); }
    }
}
/// the first `n` names of a listing
pub open spec fn done_map<V>(s: Seq<(Str, V)>, n: int) -> ISet<Str> { ISet::new(|k: Str| exists|i: int| 0 <= i < n && (#[trigger] s[i]).0 == k) }
pub proof fn grow_map<V>(s: Seq<(Str, V)>, n: int, x: Str)
    requires 0 <= n < s.len()
    ensures done_map(s, n + 1).contains(x) == (done_map(s, n).contains(x) || x == s[n].0)
{
    if done_map(s, n).contains(x) { let i = choose|i: int| 0 <= i < n && (#[trigger] s[i]).0 == x; assert(s[i].0 == x); }
}
pub proof fn all_map<V>(s: Seq<(Str, V)>, m: Map<Str, V>, x: Str)
    requires lists(s, m)
    ensures done_map(s, s.len() as int).contains(x) == m.contains_key(x)
{ }

/*@ rewrites
rw `cfg_conf!($x)` => `$x.config_path.clone().must()`
rw `.expect($*m)` => `.must()`
rw `.unwrap()` => `.must()`
rw `mem::replace($*a, None)` => `taken($*a)`
rw `mem::replace($*a, Default::default())` => `taken_whole($*a)`
rw `cernan::thread::spawn(move |_poll| { cernan::filter::$k::new($*c).run($*a); })` => `cernan::filter::$k::new($*c).spawned($*a)`
rw `.clone()` => `.same()`
@*/

/*@ part src/bin/cernan.rs main `if let Some(ref config) = args.null { $*b }`
sig:
    pub fn lay_null(config: &NullConfig, args: &Args, senders: &mut NameMap<Sender>, receivers: &mut NameMap<Receiver>, config_topology: &mut NameMap<Vec<String>>, Ghost(g): Ghost<Graph<Sender>>, Ghost(d): Ghost<ISet<Str>>)
rw `Default::default()` => `Vec::new()`
spec:
    requires well_named(*args), args.null == Some(*config), laid(*args, old(config_topology)@, g, old(senders)@, old(receivers)@, d), d.disjoint(of_kind(0))
    ensures laid(*args, final(config_topology)@, g, final(senders)@, final(receivers)@, d.union(of_kind(0)))
at fn-start:
    let ghost k = config.config_path@;
    proof { assert(of_kind(0).contains(k)); assert(stated(*args, k) == stated_0(*args, k)); }
at fn-end:
    proof {
        let f = config_topology@[k];
        lay(*args, old(config_topology)@, g, old(senders)@, old(receivers)@, d, k, f);
        assert(config_topology@ == old(config_topology)@.insert(k, f));
        assert(laid(*args, config_topology@, links(g, k, f@, None), old(senders)@.insert(k, senders@[k]), old(receivers)@.insert(k, receivers@[k]), d.insert(k)));
        assert(senders@ == old(senders)@.insert(k, senders@[k]) && receivers@ == old(receivers)@.insert(k, receivers@[k]));
        assert forall|x: Str| stated(*args, x) is Some implies d.insert(k).contains(x) == d.union(of_kind(0)).contains(x) by { if kind_of(x) == 0 { assert(stated(*args, x) == stated_0(*args, x)); } }
        same_laid(*args, config_topology@, g, senders@, receivers@, d.insert(k), d.union(of_kind(0)));
    }
@*/
/*@ part src/bin/cernan.rs main `if let Some(ref config) = args.console { $*b }`
sig:
    pub fn lay_console(config: &ConsoleConfig, args: &Args, senders: &mut NameMap<Sender>, receivers: &mut NameMap<Receiver>, config_topology: &mut NameMap<Vec<String>>, Ghost(g): Ghost<Graph<Sender>>, Ghost(d): Ghost<ISet<Str>>)
rw `Default::default()` => `Vec::new()`
spec:
    requires well_named(*args), args.console == Some(*config), laid(*args, old(config_topology)@, g, old(senders)@, old(receivers)@, d), d.disjoint(of_kind(1))
    ensures laid(*args, final(config_topology)@, g, final(senders)@, final(receivers)@, d.union(of_kind(1)))
at fn-start:
    let ghost k = config.config_path->0@;
    proof { assert(of_kind(1).contains(k)); assert(stated(*args, k) == stated_1(*args, k)); }
at fn-end:
    proof {
        let f = config_topology@[k];
        lay(*args, old(config_topology)@, g, old(senders)@, old(receivers)@, d, k, f);
        assert(config_topology@ == old(config_topology)@.insert(k, f));
        assert(laid(*args, config_topology@, links(g, k, f@, None), old(senders)@.insert(k, senders@[k]), old(receivers)@.insert(k, receivers@[k]), d.insert(k)));
        assert(senders@ == old(senders)@.insert(k, senders@[k]) && receivers@ == old(receivers)@.insert(k, receivers@[k]));
        assert forall|x: Str| stated(*args, x) is Some implies d.insert(k).contains(x) == d.union(of_kind(1)).contains(x) by { if kind_of(x) == 1 { assert(stated(*args, x) == stated_1(*args, x)); } }
        same_laid(*args, config_topology@, g, senders@, receivers@, d.insert(k), d.union(of_kind(1)));
    }
@*/
/*@ part src/bin/cernan.rs main `if let Some(ref config) = args.wavefront { $*b }`
sig:
    pub fn lay_wavefront(config: &WavefrontConfig, args: &Args, senders: &mut NameMap<Sender>, receivers: &mut NameMap<Receiver>, config_topology: &mut NameMap<Vec<String>>, Ghost(g): Ghost<Graph<Sender>>, Ghost(d): Ghost<ISet<Str>>)
rw `Default::default()` => `Vec::new()`
spec:
    requires well_named(*args), args.wavefront == Some(*config), laid(*args, old(config_topology)@, g, old(senders)@, old(receivers)@, d), d.disjoint(of_kind(2))
    ensures laid(*args, final(config_topology)@, g, final(senders)@, final(receivers)@, d.union(of_kind(2)))
at fn-start:
    let ghost k = config.config_path->0@;
    proof { assert(of_kind(2).contains(k)); assert(stated(*args, k) == stated_2(*args, k)); }
at fn-end:
    proof {
        let f = config_topology@[k];
        lay(*args, old(config_topology)@, g, old(senders)@, old(receivers)@, d, k, f);
        assert(config_topology@ == old(config_topology)@.insert(k, f));
        assert(laid(*args, config_topology@, links(g, k, f@, None), old(senders)@.insert(k, senders@[k]), old(receivers)@.insert(k, receivers@[k]), d.insert(k)));
        assert(senders@ == old(senders)@.insert(k, senders@[k]) && receivers@ == old(receivers)@.insert(k, receivers@[k]));
        assert forall|x: Str| stated(*args, x) is Some implies d.insert(k).contains(x) == d.union(of_kind(2)).contains(x) by { if kind_of(x) == 2 { assert(stated(*args, x) == stated_2(*args, x)); } }
        same_laid(*args, config_topology@, g, senders@, receivers@, d.insert(k), d.union(of_kind(2)));
    }
@*/
/*@ part src/bin/cernan.rs main `if let Some(ref config) = args.prometheus { $*b }`
sig:
    pub fn lay_prometheus(config: &PrometheusConfig, args: &Args, senders: &mut NameMap<Sender>, receivers: &mut NameMap<Receiver>, config_topology: &mut NameMap<Vec<String>>, Ghost(g): Ghost<Graph<Sender>>, Ghost(d): Ghost<ISet<Str>>)
rw `Default::default()` => `Vec::new()`
spec:
    requires well_named(*args), args.prometheus == Some(*config), laid(*args, old(config_topology)@, g, old(senders)@, old(receivers)@, d), d.disjoint(of_kind(3))
    ensures laid(*args, final(config_topology)@, g, final(senders)@, final(receivers)@, d.union(of_kind(3)))
at fn-start:
    let ghost k = config.config_path->0@;
    proof { assert(of_kind(3).contains(k)); assert(stated(*args, k) == stated_3(*args, k)); }
at fn-end:
    proof {
        let f = config_topology@[k];
        lay(*args, old(config_topology)@, g, old(senders)@, old(receivers)@, d, k, f);
        assert(config_topology@ == old(config_topology)@.insert(k, f));
        assert(laid(*args, config_topology@, links(g, k, f@, None), old(senders)@.insert(k, senders@[k]), old(receivers)@.insert(k, receivers@[k]), d.insert(k)));
        assert(senders@ == old(senders)@.insert(k, senders@[k]) && receivers@ == old(receivers)@.insert(k, receivers@[k]));
        assert forall|x: Str| stated(*args, x) is Some implies d.insert(k).contains(x) == d.union(of_kind(3)).contains(x) by { if kind_of(x) == 3 { assert(stated(*args, x) == stated_3(*args, x)); } }
        same_laid(*args, config_topology@, g, senders@, receivers@, d.insert(k), d.union(of_kind(3)));
    }
@*/
/*@ part src/bin/cernan.rs main `if let Some(ref config) = args.influxdb { $*b }`
sig:
    pub fn lay_influxdb(config: &InfluxDBConfig, args: &Args, senders: &mut NameMap<Sender>, receivers: &mut NameMap<Receiver>, config_topology: &mut NameMap<Vec<String>>, Ghost(g): Ghost<Graph<Sender>>, Ghost(d): Ghost<ISet<Str>>)
rw `Default::default()` => `Vec::new()`
spec:
    requires well_named(*args), args.influxdb == Some(*config), laid(*args, old(config_topology)@, g, old(senders)@, old(receivers)@, d), d.disjoint(of_kind(4))
    ensures laid(*args, final(config_topology)@, g, final(senders)@, final(receivers)@, d.union(of_kind(4)))
at fn-start:
    let ghost k = config.config_path->0@;
    proof { assert(of_kind(4).contains(k)); assert(stated(*args, k) == stated_4(*args, k)); }
at fn-end:
    proof {
        let f = config_topology@[k];
        lay(*args, old(config_topology)@, g, old(senders)@, old(receivers)@, d, k, f);
        assert(config_topology@ == old(config_topology)@.insert(k, f));
        assert(laid(*args, config_topology@, links(g, k, f@, None), old(senders)@.insert(k, senders@[k]), old(receivers)@.insert(k, receivers@[k]), d.insert(k)));
        assert(senders@ == old(senders)@.insert(k, senders@[k]) && receivers@ == old(receivers)@.insert(k, receivers@[k]));
        assert forall|x: Str| stated(*args, x) is Some implies d.insert(k).contains(x) == d.union(of_kind(4)).contains(x) by { if kind_of(x) == 4 { assert(stated(*args, x) == stated_4(*args, x)); } }
        same_laid(*args, config_topology@, g, senders@, receivers@, d.insert(k), d.union(of_kind(4)));
    }
@*/
/*@ part src/bin/cernan.rs main `if let Some(ref config) = args.native_sink_config { $*b }`
sig:
    pub fn lay_native_sink_config(config: &NativeConfig, args: &Args, senders: &mut NameMap<Sender>, receivers: &mut NameMap<Receiver>, config_topology: &mut NameMap<Vec<String>>, Ghost(g): Ghost<Graph<Sender>>, Ghost(d): Ghost<ISet<Str>>)
rw `Default::default()` => `Vec::new()`
spec:
    requires well_named(*args), args.native_sink_config == Some(*config), laid(*args, old(config_topology)@, g, old(senders)@, old(receivers)@, d), d.disjoint(of_kind(5))
    ensures laid(*args, final(config_topology)@, g, final(senders)@, final(receivers)@, d.union(of_kind(5)))
at fn-start:
    let ghost k = config.config_path->0@;
    proof { assert(of_kind(5).contains(k)); assert(stated(*args, k) == stated_5(*args, k)); }
at fn-end:
    proof {
        let f = config_topology@[k];
        lay(*args, old(config_topology)@, g, old(senders)@, old(receivers)@, d, k, f);
        assert(config_topology@ == old(config_topology)@.insert(k, f));
        assert(laid(*args, config_topology@, links(g, k, f@, None), old(senders)@.insert(k, senders@[k]), old(receivers)@.insert(k, receivers@[k]), d.insert(k)));
        assert(senders@ == old(senders)@.insert(k, senders@[k]) && receivers@ == old(receivers)@.insert(k, receivers@[k]));
        assert forall|x: Str| stated(*args, x) is Some implies d.insert(k).contains(x) == d.union(of_kind(5)).contains(x) by { if kind_of(x) == 5 { assert(stated(*args, x) == stated_5(*args, x)); } }
        same_laid(*args, config_topology@, g, senders@, receivers@, d.insert(k), d.union(of_kind(5)));
    }
@*/
/*@ part src/bin/cernan.rs main `if let Some(ref config) = args.elasticsearch { $*b }`
sig:
    pub fn lay_elasticsearch(config: &ElasticsearchConfig, args: &Args, senders: &mut NameMap<Sender>, receivers: &mut NameMap<Receiver>, config_topology: &mut NameMap<Vec<String>>, Ghost(g): Ghost<Graph<Sender>>, Ghost(d): Ghost<ISet<Str>>)
rw `Default::default()` => `Vec::new()`
spec:
    requires well_named(*args), args.elasticsearch == Some(*config), laid(*args, old(config_topology)@, g, old(senders)@, old(receivers)@, d), d.disjoint(of_kind(6))
    ensures laid(*args, final(config_topology)@, g, final(senders)@, final(receivers)@, d.union(of_kind(6)))
at fn-start:
    let ghost k = config.config_path->0@;
    proof { assert(of_kind(6).contains(k)); assert(stated(*args, k) == stated_6(*args, k)); }
at fn-end:
    proof {
        let f = config_topology@[k];
        lay(*args, old(config_topology)@, g, old(senders)@, old(receivers)@, d, k, f);
        assert(config_topology@ == old(config_topology)@.insert(k, f));
        assert(laid(*args, config_topology@, links(g, k, f@, None), old(senders)@.insert(k, senders@[k]), old(receivers)@.insert(k, receivers@[k]), d.insert(k)));
        assert(senders@ == old(senders)@.insert(k, senders@[k]) && receivers@ == old(receivers)@.insert(k, receivers@[k]));
        assert forall|x: Str| stated(*args, x) is Some implies d.insert(k).contains(x) == d.union(of_kind(6)).contains(x) by { if kind_of(x) == 6 { assert(stated(*args, x) == stated_6(*args, x)); } }
        same_laid(*args, config_topology@, g, senders@, receivers@, d.insert(k), d.union(of_kind(6)));
    }
@*/
pub open spec fn done_kafkas(v: Seq<KafkaConfig>, n: int) -> ISet<Str> { ISet::new(|k: Str| exists|i: int| 0 <= i < n && named((#[trigger] v[i]).config_path, k)) }
/*@ part src/bin/cernan.rs main `if let Some(ref configs) = args.kafkas { $*b }`
sig:
    pub fn lay_kafkas(configs: &Vec<KafkaConfig>, args: &Args, senders: &mut NameMap<Sender>, receivers: &mut NameMap<Receiver>, config_topology: &mut NameMap<Vec<String>>, Ghost(g): Ghost<Graph<Sender>>, Ghost(d): Ghost<ISet<Str>>)
rw `Default::default()` => `Vec::new()`
rw `for $c in configs {` => `for $c in configs.iter() {`
spec:
    requires well_named(*args), args.kafkas == Some(*configs), laid(*args, old(config_topology)@, g, old(senders)@, old(receivers)@, d), d.disjoint(of_kind(7))
    ensures laid(*args, final(config_topology)@, g, final(senders)@, final(receivers)@, d.union(of_kind(7)))
loop 1 for iter it:
    invariant
        well_named(*args), args.kafkas == Some(*configs), d.disjoint(of_kind(7)), it.seq().len() == configs@.len(), forall|i: int| 0 <= i < configs@.len() ==> *(#[trigger] it.seq()[i]) == configs@[i],
        laid(*args, config_topology@, g, senders@, receivers@, d.union(done_kafkas(configs@, it.index()))),
at loop 1 before:
    proof { same_laid(*args, config_topology@, g, senders@, receivers@, d, d.union(done_kafkas(configs@, 0))); }
at loop 1 start:
    let ghost k = configs@[it.index()].config_path->0@;
    let ghost (t0, g0, s0, r0) = (config_topology@, g, senders@, receivers@);
    let ghost d0 = d.union(done_kafkas(configs@, it.index()));
    proof {
        assert(*it.seq()[it.index()] == configs@[it.index()]); assert(named(configs@[it.index()].config_path, k)); pick_kafkas(*args, it.index());
        assert(of_kind(7).contains(k));
        assert(stated(*args, k) == stated_7(*args, k));
        
        assert(!d0.contains(k));
    }
at loop 1 end:
    proof {
        let f = config_topology@[k];
        lay(*args, t0, g0, s0, r0, d0, k, f);
        assert(config_topology@ == t0.insert(k, f));
        assert(laid(*args, t0.insert(k, f), links(g0, k, f@, None), s0.insert(k, senders@[k]), r0.insert(k, receivers@[k]), d0.insert(k)));
        assert(senders@ == s0.insert(k, senders@[k]) && receivers@ == r0.insert(k, receivers@[k]));
        let e = d.union(done_kafkas(configs@, it.index() + 1));
        assert forall|x: Str| d0.insert(k).contains(x) == e.contains(x) by { if named(configs@[it.index()].config_path, x) { assert(done_kafkas(configs@, it.index() + 1).contains(x)); } }
        same_laid(*args, config_topology@, g, senders@, receivers@, d0.insert(k), e);
    }
at loop 1 after:
    proof {
        let e = d.union(done_kafkas(configs@, configs@.len() as int));
        assert forall|x: Str| stated(*args, x) is Some implies e.contains(x) == d.union(of_kind(7)).contains(x) by { if kind_of(x) == 7 { assert(stated(*args, x) == stated_7(*args, x)); } }
        same_laid(*args, config_topology@, g, senders@, receivers@, e, d.union(of_kind(7)));
    }
@*/
pub proof fn pick_kafkas(args: Args, i: int)
    requires well_named(args), args.kafkas is Some, 0 <= i < args.kafkas->0@.len()
    ensures stated_7(args, args.kafkas->0@[i].config_path->0@) == Some(Cfg::Kafka(args.kafkas->0@[i])), kind_of(args.kafkas->0@[i].config_path->0@) == 7
{
    let k = args.kafkas->0@[i].config_path->0@;
    assert(named(args.kafkas->0@[i].config_path, k));
}
/*@ part src/bin/cernan.rs main `if let Some(ref configs) = args.programmable_filters { $*b }`
sig:
    pub fn lay_programmable_filters(configs: &HashMap<String, ProgrammableFilterConfig>, args: &Args, senders: &mut NameMap<Sender>, receivers: &mut NameMap<Receiver>, config_topology: &mut NameMap<Vec<String>>, adjacency_matrix: &mut Adjacency<Sender>, Ghost(d): Ghost<ISet<Str>>)
rw `Default::default()` => `Vec::new()`
rw `for ($p, $c) in configs {` => `let es = each(configs); let ghost lst = flat_ref(es@); for q in es { let ($p, $c) = q;`
spec:
    requires well_named(*args), args.programmable_filters == Some(*configs), laid(*args, old(config_topology)@, old(adjacency_matrix).g(), old(senders)@, old(receivers)@, d), d.disjoint(of_kind(8))
    ensures laid(*args, final(config_topology)@, final(adjacency_matrix).g(), final(senders)@, final(receivers)@, d.union(of_kind(8)))
loop 1 for iter it:
    invariant
        well_named(*args), args.programmable_filters == Some(*configs), d.disjoint(of_kind(8)), lst == flat_ref(it.seq()), lists(lst, configs@),
        laid(*args, config_topology@, adjacency_matrix.g(), senders@, receivers@, d.union(done_map(lst, it.index()))),
at loop 1 before:
    proof { same_laid(*args, config_topology@, adjacency_matrix.g(), senders@, receivers@, d, d.union(done_map(lst, 0))); }
at loop 1 start:
    let ghost k = it.seq()[it.index()].0@;
    let ghost (t0, g0, s0, r0) = (config_topology@, adjacency_matrix.g(), senders@, receivers@);
    let ghost d0 = d.union(done_map(lst, it.index()));
    proof {
        assert(lst[it.index()] == (it.seq()[it.index()].0@, *it.seq()[it.index()].1));
        assert(of_kind(8).contains(k));
        assert(stated(*args, k) == stated_8(*args, k));
        
        assert(!d0.contains(k));
    }
at loop 1 end:
    proof {
        let f = config_topology@[k];
        lay(*args, t0, g0, s0, r0, d0, k, f);
        assert(config_topology@ == t0.insert(k, f));
        assert(laid(*args, t0.insert(k, f), links(g0, k, f@, None), s0.insert(k, senders@[k]), r0.insert(k, receivers@[k]), d0.insert(k)));
        assert(senders@ == s0.insert(k, senders@[k]) && receivers@ == r0.insert(k, receivers@[k]));
        let e = d.union(done_map(lst, it.index() + 1));
        assert forall|x: Str| d0.insert(k).contains(x) == e.contains(x) by { grow_map(lst, it.index(), x); }
        same_laid(*args, config_topology@, adjacency_matrix.g(), senders@, receivers@, d0.insert(k), e);
    }
at loop 1 after:
    proof {
        let e = d.union(done_map(lst, lst.len() as int));
        assert forall|x: Str| stated(*args, x) is Some implies e.contains(x) == d.union(of_kind(8)).contains(x) by { assert(stated(*args, x) is Some && kind_of(x) == 8 ==> stated(*args, x) == stated_8(*args, x)); all_map(lst, configs@, x); }
        same_laid(*args, config_topology@, adjacency_matrix.g(), senders@, receivers@, e, d.union(of_kind(8)));
    }
@*/
/*@ part src/bin/cernan.rs main `if let Some(ref configs) = args.delay_filters { $*b }`
sig:
    pub fn lay_delay_filters(configs: &HashMap<String, DelayFilterConfig>, args: &Args, senders: &mut NameMap<Sender>, receivers: &mut NameMap<Receiver>, config_topology: &mut NameMap<Vec<String>>, adjacency_matrix: &mut Adjacency<Sender>, Ghost(d): Ghost<ISet<Str>>)
rw `Default::default()` => `Vec::new()`
rw `for ($p, $c) in configs {` => `let es = each(configs); let ghost lst = flat_ref(es@); for q in es { let ($p, $c) = q;`
spec:
    requires well_named(*args), args.delay_filters == Some(*configs), laid(*args, old(config_topology)@, old(adjacency_matrix).g(), old(senders)@, old(receivers)@, d), d.disjoint(of_kind(9))
    ensures laid(*args, final(config_topology)@, final(adjacency_matrix).g(), final(senders)@, final(receivers)@, d.union(of_kind(9)))
loop 1 for iter it:
    invariant
        well_named(*args), args.delay_filters == Some(*configs), d.disjoint(of_kind(9)), lst == flat_ref(it.seq()), lists(lst, configs@),
        laid(*args, config_topology@, adjacency_matrix.g(), senders@, receivers@, d.union(done_map(lst, it.index()))),
at loop 1 before:
    proof { same_laid(*args, config_topology@, adjacency_matrix.g(), senders@, receivers@, d, d.union(done_map(lst, 0))); }
at loop 1 start:
    let ghost k = it.seq()[it.index()].0@;
    let ghost (t0, g0, s0, r0) = (config_topology@, adjacency_matrix.g(), senders@, receivers@);
    let ghost d0 = d.union(done_map(lst, it.index()));
    proof {
        assert(lst[it.index()] == (it.seq()[it.index()].0@, *it.seq()[it.index()].1));
        assert(of_kind(9).contains(k));
        assert(stated(*args, k) == stated_9(*args, k));
        
        assert(!d0.contains(k));
    }
at loop 1 end:
    proof {
        let f = config_topology@[k];
        lay(*args, t0, g0, s0, r0, d0, k, f);
        assert(config_topology@ == t0.insert(k, f));
        assert(laid(*args, t0.insert(k, f), links(g0, k, f@, None), s0.insert(k, senders@[k]), r0.insert(k, receivers@[k]), d0.insert(k)));
        assert(senders@ == s0.insert(k, senders@[k]) && receivers@ == r0.insert(k, receivers@[k]));
        let e = d.union(done_map(lst, it.index() + 1));
        assert forall|x: Str| d0.insert(k).contains(x) == e.contains(x) by { grow_map(lst, it.index(), x); }
        same_laid(*args, config_topology@, adjacency_matrix.g(), senders@, receivers@, d0.insert(k), e);
    }
at loop 1 after:
    proof {
        let e = d.union(done_map(lst, lst.len() as int));
        assert forall|x: Str| stated(*args, x) is Some implies e.contains(x) == d.union(of_kind(9)).contains(x) by { assert(stated(*args, x) is Some && kind_of(x) == 9 ==> stated(*args, x) == stated_9(*args, x)); all_map(lst, configs@, x); }
        same_laid(*args, config_topology@, adjacency_matrix.g(), senders@, receivers@, e, d.union(of_kind(9)));
    }
@*/
/*@ part src/bin/cernan.rs main `if let Some(ref configs) = args.json_encode_filters { $*b }`
sig:
    pub fn lay_json_encode_filters(configs: &HashMap<String, JSONEncodeFilterConfig>, args: &Args, senders: &mut NameMap<Sender>, receivers: &mut NameMap<Receiver>, config_topology: &mut NameMap<Vec<String>>, adjacency_matrix: &mut Adjacency<Sender>, Ghost(d): Ghost<ISet<Str>>)
rw `Default::default()` => `Vec::new()`
rw `for ($p, $c) in configs {` => `let es = each(configs); let ghost lst = flat_ref(es@); for q in es { let ($p, $c) = q;`
spec:
    requires well_named(*args), args.json_encode_filters == Some(*configs), laid(*args, old(config_topology)@, old(adjacency_matrix).g(), old(senders)@, old(receivers)@, d), d.disjoint(of_kind(10))
    ensures laid(*args, final(config_topology)@, final(adjacency_matrix).g(), final(senders)@, final(receivers)@, d.union(of_kind(10)))
loop 1 for iter it:
    invariant
        well_named(*args), args.json_encode_filters == Some(*configs), d.disjoint(of_kind(10)), lst == flat_ref(it.seq()), lists(lst, configs@),
        laid(*args, config_topology@, adjacency_matrix.g(), senders@, receivers@, d.union(done_map(lst, it.index()))),
at loop 1 before:
    proof { same_laid(*args, config_topology@, adjacency_matrix.g(), senders@, receivers@, d, d.union(done_map(lst, 0))); }
at loop 1 start:
    let ghost k = it.seq()[it.index()].0@;
    let ghost (t0, g0, s0, r0) = (config_topology@, adjacency_matrix.g(), senders@, receivers@);
    let ghost d0 = d.union(done_map(lst, it.index()));
    proof {
        assert(lst[it.index()] == (it.seq()[it.index()].0@, *it.seq()[it.index()].1));
        assert(of_kind(10).contains(k));
        assert(stated(*args, k) == stated_10(*args, k));
        
        assert(!d0.contains(k));
    }
at loop 1 end:
    proof {
        let f = config_topology@[k];
        lay(*args, t0, g0, s0, r0, d0, k, f);
        assert(config_topology@ == t0.insert(k, f));
        assert(laid(*args, t0.insert(k, f), links(g0, k, f@, None), s0.insert(k, senders@[k]), r0.insert(k, receivers@[k]), d0.insert(k)));
        assert(senders@ == s0.insert(k, senders@[k]) && receivers@ == r0.insert(k, receivers@[k]));
        let e = d.union(done_map(lst, it.index() + 1));
        assert forall|x: Str| d0.insert(k).contains(x) == e.contains(x) by { grow_map(lst, it.index(), x); }
        same_laid(*args, config_topology@, adjacency_matrix.g(), senders@, receivers@, d0.insert(k), e);
    }
at loop 1 after:
    proof {
        let e = d.union(done_map(lst, lst.len() as int));
        assert forall|x: Str| stated(*args, x) is Some implies e.contains(x) == d.union(of_kind(10)).contains(x) by { assert(stated(*args, x) is Some && kind_of(x) == 10 ==> stated(*args, x) == stated_10(*args, x)); all_map(lst, configs@, x); }
        same_laid(*args, config_topology@, adjacency_matrix.g(), senders@, receivers@, e, d.union(of_kind(10)));
    }
@*/
/*@ part src/bin/cernan.rs main `if let Some(ref configs) = args.flush_boundary_filters { $*b }`
sig:
    pub fn lay_flush_boundary_filters(configs: &HashMap<String, FlushBoundaryFilterConfig>, args: &Args, senders: &mut NameMap<Sender>, receivers: &mut NameMap<Receiver>, config_topology: &mut NameMap<Vec<String>>, adjacency_matrix: &mut Adjacency<Sender>, Ghost(d): Ghost<ISet<Str>>)
rw `Default::default()` => `Vec::new()`
rw `for ($p, $c) in configs {` => `let es = each(configs); let ghost lst = flat_ref(es@); for q in es { let ($p, $c) = q;`
spec:
    requires well_named(*args), args.flush_boundary_filters == Some(*configs), laid(*args, old(config_topology)@, old(adjacency_matrix).g(), old(senders)@, old(receivers)@, d), d.disjoint(of_kind(11))
    ensures laid(*args, final(config_topology)@, final(adjacency_matrix).g(), final(senders)@, final(receivers)@, d.union(of_kind(11)))
loop 1 for iter it:
    invariant
        well_named(*args), args.flush_boundary_filters == Some(*configs), d.disjoint(of_kind(11)), lst == flat_ref(it.seq()), lists(lst, configs@),
        laid(*args, config_topology@, adjacency_matrix.g(), senders@, receivers@, d.union(done_map(lst, it.index()))),
at loop 1 before:
    proof { same_laid(*args, config_topology@, adjacency_matrix.g(), senders@, receivers@, d, d.union(done_map(lst, 0))); }
at loop 1 start:
    let ghost k = it.seq()[it.index()].0@;
    let ghost (t0, g0, s0, r0) = (config_topology@, adjacency_matrix.g(), senders@, receivers@);
    let ghost d0 = d.union(done_map(lst, it.index()));
    proof {
        assert(lst[it.index()] == (it.seq()[it.index()].0@, *it.seq()[it.index()].1));
        assert(of_kind(11).contains(k));
        assert(stated(*args, k) == stated_11(*args, k));
        
        assert(!d0.contains(k));
    }
at loop 1 end:
    proof {
        let f = config_topology@[k];
        lay(*args, t0, g0, s0, r0, d0, k, f);
        assert(config_topology@ == t0.insert(k, f));
        assert(laid(*args, t0.insert(k, f), links(g0, k, f@, None), s0.insert(k, senders@[k]), r0.insert(k, receivers@[k]), d0.insert(k)));
        assert(senders@ == s0.insert(k, senders@[k]) && receivers@ == r0.insert(k, receivers@[k]));
        let e = d.union(done_map(lst, it.index() + 1));
        assert forall|x: Str| d0.insert(k).contains(x) == e.contains(x) by { grow_map(lst, it.index(), x); }
        same_laid(*args, config_topology@, adjacency_matrix.g(), senders@, receivers@, d0.insert(k), e);
    }
at loop 1 after:
    proof {
        let e = d.union(done_map(lst, lst.len() as int));
        assert forall|x: Str| stated(*args, x) is Some implies e.contains(x) == d.union(of_kind(11)).contains(x) by { assert(stated(*args, x) is Some && kind_of(x) == 11 ==> stated(*args, x) == stated_11(*args, x)); all_map(lst, configs@, x); }
        same_laid(*args, config_topology@, adjacency_matrix.g(), senders@, receivers@, e, d.union(of_kind(11)));
    }
@*/
/*@ part src/bin/cernan.rs main `if let Some(ref configs) = args.native_server_config { $*b }`
sig:
    pub fn lay_native_server_config(configs: &HashMap<String, NativeServerConfig>, args: &Args, config_topology: &mut NameMap<Vec<String>>, adjacency_matrix: &mut Adjacency<Sender>, Ghost(s): Ghost<Map<Str, Sender>>, Ghost(r): Ghost<Map<Str, Receiver>>, Ghost(d): Ghost<ISet<Str>>)
rw `Default::default()` => `Vec::new()`
rw `for ($p, $c) in configs {` => `let es = each(configs); let ghost lst = flat_ref(es@); for q in es { let ($p, $c) = q;`
spec:
    requires well_named(*args), args.native_server_config == Some(*configs), laid(*args, old(config_topology)@, old(adjacency_matrix).g(), s, r, d), d.disjoint(of_kind(12))
    ensures laid(*args, final(config_topology)@, final(adjacency_matrix).g(), s, r, d.union(of_kind(12)))
loop 1 for iter it:
    invariant
        well_named(*args), args.native_server_config == Some(*configs), d.disjoint(of_kind(12)), lst == flat_ref(it.seq()), lists(lst, configs@),
        laid(*args, config_topology@, adjacency_matrix.g(), s, r, d.union(done_map(lst, it.index()))),
at loop 1 before:
    proof { same_laid(*args, config_topology@, adjacency_matrix.g(), s, r, d, d.union(done_map(lst, 0))); }
at loop 1 start:
    let ghost k = it.seq()[it.index()].0@;
    let ghost (t0, g0, s0, r0) = (config_topology@, adjacency_matrix.g(), s, r);
    let ghost d0 = d.union(done_map(lst, it.index()));
    proof {
        assert(lst[it.index()] == (it.seq()[it.index()].0@, *it.seq()[it.index()].1));
        assert(of_kind(12).contains(k));
        assert(stated(*args, k) == stated_12(*args, k));
        
        assert(!d0.contains(k));
    }
at loop 1 end:
    proof {
        let f = config_topology@[k];
        lay(*args, t0, g0, s0, r0, d0, k, f);
        assert(config_topology@ == t0.insert(k, f));
        
        let e = d.union(done_map(lst, it.index() + 1));
        assert forall|x: Str| d0.insert(k).contains(x) == e.contains(x) by { grow_map(lst, it.index(), x); }
        same_laid(*args, config_topology@, adjacency_matrix.g(), s, r, d0.insert(k), e);
    }
at loop 1 after:
    proof {
        let e = d.union(done_map(lst, lst.len() as int));
        assert forall|x: Str| stated(*args, x) is Some implies e.contains(x) == d.union(of_kind(12)).contains(x) by { assert(stated(*args, x) is Some && kind_of(x) == 12 ==> stated(*args, x) == stated_12(*args, x)); all_map(lst, configs@, x); }
        same_laid(*args, config_topology@, adjacency_matrix.g(), s, r, e, d.union(of_kind(12)));
    }
@*/
/*@ part src/bin/cernan.rs main `if let Some(ref configs) = args.statsds { $*b }`
sig:
    pub fn lay_statsds(configs: &HashMap<String, StatsdConfig>, args: &Args, config_topology: &mut NameMap<Vec<String>>, adjacency_matrix: &mut Adjacency<Sender>, Ghost(s): Ghost<Map<Str, Sender>>, Ghost(r): Ghost<Map<Str, Receiver>>, Ghost(d): Ghost<ISet<Str>>)
rw `Default::default()` => `Vec::new()`
rw `for ($p, $c) in configs {` => `let es = each(configs); let ghost lst = flat_ref(es@); for q in es { let ($p, $c) = q;`
spec:
    requires well_named(*args), args.statsds == Some(*configs), laid(*args, old(config_topology)@, old(adjacency_matrix).g(), s, r, d), d.disjoint(of_kind(14))
    ensures laid(*args, final(config_topology)@, final(adjacency_matrix).g(), s, r, d.union(of_kind(14)))
loop 1 for iter it:
    invariant
        well_named(*args), args.statsds == Some(*configs), d.disjoint(of_kind(14)), lst == flat_ref(it.seq()), lists(lst, configs@),
        laid(*args, config_topology@, adjacency_matrix.g(), s, r, d.union(done_map(lst, it.index()))),
at loop 1 before:
    proof { same_laid(*args, config_topology@, adjacency_matrix.g(), s, r, d, d.union(done_map(lst, 0))); }
at loop 1 start:
    let ghost k = it.seq()[it.index()].0@;
    let ghost (t0, g0, s0, r0) = (config_topology@, adjacency_matrix.g(), s, r);
    let ghost d0 = d.union(done_map(lst, it.index()));
    proof {
        assert(lst[it.index()] == (it.seq()[it.index()].0@, *it.seq()[it.index()].1));
        assert(of_kind(14).contains(k));
        assert(stated(*args, k) == stated_14(*args, k));
        
        assert(!d0.contains(k));
    }
at loop 1 end:
    proof {
        let f = config_topology@[k];
        lay(*args, t0, g0, s0, r0, d0, k, f);
        assert(config_topology@ == t0.insert(k, f));
        
        let e = d.union(done_map(lst, it.index() + 1));
        assert forall|x: Str| d0.insert(k).contains(x) == e.contains(x) by { grow_map(lst, it.index(), x); }
        same_laid(*args, config_topology@, adjacency_matrix.g(), s, r, d0.insert(k), e);
    }
at loop 1 after:
    proof {
        let e = d.union(done_map(lst, lst.len() as int));
        assert forall|x: Str| stated(*args, x) is Some implies e.contains(x) == d.union(of_kind(14)).contains(x) by { assert(stated(*args, x) is Some && kind_of(x) == 14 ==> stated(*args, x) == stated_14(*args, x)); all_map(lst, configs@, x); }
        same_laid(*args, config_topology@, adjacency_matrix.g(), s, r, e, d.union(of_kind(14)));
    }
@*/
/*@ part src/bin/cernan.rs main `if let Some(ref configs) = args.graphites { $*b }`
sig:
    pub fn lay_graphites(configs: &HashMap<String, GraphiteConfig>, args: &Args, config_topology: &mut NameMap<Vec<String>>, adjacency_matrix: &mut Adjacency<Sender>, Ghost(s): Ghost<Map<Str, Sender>>, Ghost(r): Ghost<Map<Str, Receiver>>, Ghost(d): Ghost<ISet<Str>>)
rw `Default::default()` => `Vec::new()`
rw `for ($p, $c) in configs {` => `let es = each(configs); let ghost lst = flat_ref(es@); for q in es { let ($p, $c) = q;`
spec:
    requires well_named(*args), args.graphites == Some(*configs), laid(*args, old(config_topology)@, old(adjacency_matrix).g(), s, r, d), d.disjoint(of_kind(15))
    ensures laid(*args, final(config_topology)@, final(adjacency_matrix).g(), s, r, d.union(of_kind(15)))
loop 1 for iter it:
    invariant
        well_named(*args), args.graphites == Some(*configs), d.disjoint(of_kind(15)), lst == flat_ref(it.seq()), lists(lst, configs@),
        laid(*args, config_topology@, adjacency_matrix.g(), s, r, d.union(done_map(lst, it.index()))),
at loop 1 before:
    proof { same_laid(*args, config_topology@, adjacency_matrix.g(), s, r, d, d.union(done_map(lst, 0))); }
at loop 1 start:
    let ghost k = it.seq()[it.index()].0@;
    let ghost (t0, g0, s0, r0) = (config_topology@, adjacency_matrix.g(), s, r);
    let ghost d0 = d.union(done_map(lst, it.index()));
    proof {
        assert(lst[it.index()] == (it.seq()[it.index()].0@, *it.seq()[it.index()].1));
        assert(of_kind(15).contains(k));
        assert(stated(*args, k) == stated_15(*args, k));
        
        assert(!d0.contains(k));
    }
at loop 1 end:
    proof {
        let f = config_topology@[k];
        lay(*args, t0, g0, s0, r0, d0, k, f);
        assert(config_topology@ == t0.insert(k, f));
        
        let e = d.union(done_map(lst, it.index() + 1));
        assert forall|x: Str| d0.insert(k).contains(x) == e.contains(x) by { grow_map(lst, it.index(), x); }
        same_laid(*args, config_topology@, adjacency_matrix.g(), s, r, d0.insert(k), e);
    }
at loop 1 after:
    proof {
        let e = d.union(done_map(lst, lst.len() as int));
        assert forall|x: Str| stated(*args, x) is Some implies e.contains(x) == d.union(of_kind(15)).contains(x) by { assert(stated(*args, x) is Some && kind_of(x) == 15 ==> stated(*args, x) == stated_15(*args, x)); all_map(lst, configs@, x); }
        same_laid(*args, config_topology@, adjacency_matrix.g(), s, r, e, d.union(of_kind(15)));
    }
@*/
/*@ part src/bin/cernan.rs main `if let Some(ref configs) = args.avros { $*b }`
sig:
    pub fn lay_avros(configs: &HashMap<String, TCPConfig>, args: &Args, config_topology: &mut NameMap<Vec<String>>, adjacency_matrix: &mut Adjacency<Sender>, Ghost(s): Ghost<Map<Str, Sender>>, Ghost(r): Ghost<Map<Str, Receiver>>, Ghost(d): Ghost<ISet<Str>>)
rw `Default::default()` => `Vec::new()`
rw `for ($p, $c) in configs {` => `let es = each(configs); let ghost lst = flat_ref(es@); for q in es { let ($p, $c) = q;`
spec:
    requires well_named(*args), args.avros == Some(*configs), laid(*args, old(config_topology)@, old(adjacency_matrix).g(), s, r, d), d.disjoint(of_kind(16))
    ensures laid(*args, final(config_topology)@, final(adjacency_matrix).g(), s, r, d.union(of_kind(16)))
loop 1 for iter it:
    invariant
        well_named(*args), args.avros == Some(*configs), d.disjoint(of_kind(16)), lst == flat_ref(it.seq()), lists(lst, configs@),
        laid(*args, config_topology@, adjacency_matrix.g(), s, r, d.union(done_map(lst, it.index()))),
at loop 1 before:
    proof { same_laid(*args, config_topology@, adjacency_matrix.g(), s, r, d, d.union(done_map(lst, 0))); }
at loop 1 start:
    let ghost k = it.seq()[it.index()].0@;
    let ghost (t0, g0, s0, r0) = (config_topology@, adjacency_matrix.g(), s, r);
    let ghost d0 = d.union(done_map(lst, it.index()));
    proof {
        assert(lst[it.index()] == (it.seq()[it.index()].0@, *it.seq()[it.index()].1));
        assert(of_kind(16).contains(k));
        assert(stated(*args, k) == stated_16(*args, k));
        
        assert(!d0.contains(k));
    }
at loop 1 end:
    proof {
        let f = config_topology@[k];
        lay(*args, t0, g0, s0, r0, d0, k, f);
        assert(config_topology@ == t0.insert(k, f));
        
        let e = d.union(done_map(lst, it.index() + 1));
        assert forall|x: Str| d0.insert(k).contains(x) == e.contains(x) by { grow_map(lst, it.index(), x); }
        same_laid(*args, config_topology@, adjacency_matrix.g(), s, r, d0.insert(k), e);
    }
at loop 1 after:
    proof {
        let e = d.union(done_map(lst, lst.len() as int));
        assert forall|x: Str| stated(*args, x) is Some implies e.contains(x) == d.union(of_kind(16)).contains(x) by { assert(stated(*args, x) is Some && kind_of(x) == 16 ==> stated(*args, x) == stated_16(*args, x)); all_map(lst, configs@, x); }
        same_laid(*args, config_topology@, adjacency_matrix.g(), s, r, e, d.union(of_kind(16)));
    }
@*/
pub open spec fn done_files(v: Seq<FileServerConfig>, n: int) -> ISet<Str> { ISet::new(|k: Str| exists|i: int| 0 <= i < n && named((#[trigger] v[i]).config_path, k)) }
/*@ part src/bin/cernan.rs main `if let Some(ref configs) = args.files { $*b }`
sig:
    pub fn lay_files(configs: &Vec<FileServerConfig>, args: &Args, config_topology: &mut NameMap<Vec<String>>, adjacency_matrix: &mut Adjacency<Sender>, Ghost(s): Ghost<Map<Str, Sender>>, Ghost(r): Ghost<Map<Str, Receiver>>, Ghost(d): Ghost<ISet<Str>>)
rw `Default::default()` => `Vec::new()`
rw `for $c in configs {` => `for $c in configs.iter() {`
spec:
    requires well_named(*args), args.files == Some(*configs), laid(*args, old(config_topology)@, old(adjacency_matrix).g(), s, r, d), d.disjoint(of_kind(17))
    ensures laid(*args, final(config_topology)@, final(adjacency_matrix).g(), s, r, d.union(of_kind(17)))
loop 1 for iter it:
    invariant
        well_named(*args), args.files == Some(*configs), d.disjoint(of_kind(17)), it.seq().len() == configs@.len(), forall|i: int| 0 <= i < configs@.len() ==> *(#[trigger] it.seq()[i]) == configs@[i],
        laid(*args, config_topology@, adjacency_matrix.g(), s, r, d.union(done_files(configs@, it.index()))),
at loop 1 before:
    proof { same_laid(*args, config_topology@, adjacency_matrix.g(), s, r, d, d.union(done_files(configs@, 0))); }
at loop 1 start:
    let ghost k = configs@[it.index()].config_path->0@;
    let ghost (t0, g0, s0, r0) = (config_topology@, adjacency_matrix.g(), s, r);
    let ghost d0 = d.union(done_files(configs@, it.index()));
    proof {
        assert(*it.seq()[it.index()] == configs@[it.index()]); assert(named(configs@[it.index()].config_path, k)); pick_files(*args, it.index());
        assert(of_kind(17).contains(k));
        assert(stated(*args, k) == stated_17(*args, k));
        
        assert(!d0.contains(k));
    }
at loop 1 end:
    proof {
        let f = config_topology@[k];
        lay(*args, t0, g0, s0, r0, d0, k, f);
        assert(config_topology@ == t0.insert(k, f));
        
        let e = d.union(done_files(configs@, it.index() + 1));
        assert forall|x: Str| d0.insert(k).contains(x) == e.contains(x) by { if named(configs@[it.index()].config_path, x) { assert(done_files(configs@, it.index() + 1).contains(x)); } }
        same_laid(*args, config_topology@, adjacency_matrix.g(), s, r, d0.insert(k), e);
    }
at loop 1 after:
    proof {
        let e = d.union(done_files(configs@, configs@.len() as int));
        assert forall|x: Str| stated(*args, x) is Some implies e.contains(x) == d.union(of_kind(17)).contains(x) by { if kind_of(x) == 17 { assert(stated(*args, x) == stated_17(*args, x)); } }
        same_laid(*args, config_topology@, adjacency_matrix.g(), s, r, e, d.union(of_kind(17)));
    }
@*/
pub proof fn pick_files(args: Args, i: int)
    requires well_named(args), args.files is Some, 0 <= i < args.files->0@.len()
    ensures stated_17(args, args.files->0@[i].config_path->0@) == Some(Cfg::FileServer(args.files->0@[i])), kind_of(args.files->0@[i].config_path->0@) == 17
{
    let k = args.files->0@[i].config_path->0@;
    assert(named(args.files->0@[i].config_path, k));
}
// ---- lemmas of the start
pub open spec fn others<M>(g: Graph<M>, g2: Graph<M>, k: Str) -> bool { forall|a: Str| a != k ==> #[trigger] edges_of(g2, a) == edges_of(g, a) }
pub open spec fn left<A>(r: Map<Str, A>, r2: Map<Str, A>) -> bool { forall|a: Str| #[trigger] r2.contains_key(a) ==> r.contains_key(a) && r2[a] == r[a] }
/// one component more at work
pub proof fn step(args: Args, g: Graph<Sender>, g2: Graph<Sender>, s: Map<Str, Sender>, r: Map<Str, Receiver>, r2: Map<Str, Receiver>, h: Map<Str, ThreadHandle>, x: ThreadHandle, lo: int, hi: int, d: ISet<Str>, k: Str)
    requires
        ready(args, g, s, r, d), running(args, h, lo, hi, d), stated(args, k) is Some, lo <= kind_of(k) < hi, right(args, k, x.job()),
        others(g, g2, k), left(r, r2),
    ensures ready(args, g2, s, r2, d.insert(k)), running(args, h.insert(k, x), lo, hi, d.insert(k))
{
    reveal(ready); reveal(running);
    let e = d.insert(k);
    assert forall|a: Str, b: Str| !e.contains(a) && stated(args, a) is Some implies (#[trigger] edges_of(g2, a).contains_key(b) <==> feeds(args, a, b) || feeds(args, b, a)) by { assert(edges_of(g, a).contains_key(b) <==> feeds(args, a, b) || feeds(args, b, a)); }
    assert forall|a: Str, b: Str| !e.contains(a) && stated(args, a) is Some && #[trigger] edges_of(g2, a).contains_key(b) implies edges_of(g2, a)[b] is None by { assert(edges_of(g, a).contains_key(b)); }
}
/// the names of a node's edges, all of them from those who forward to it
pub proof fn names_from(args: Args, g: Graph<Sender>, s: Map<Str, Sender>, r: Map<Str, Receiver>, d: ISet<Str>, k: Str, v: Seq<String>)
    requires ready(args, g, s, r, d), stated(args, k) is Some, !d.contains(k), forwards(stated(args, k)->0).len() == 0, listed_names(v, edges_of(g, k))
    ensures
        exactly(texts(v), |a: Str| feeds(args, a, k) && !feeds(args, k, a)),
        exactly_queues(args, Seq::empty(), |b: Str| feeds(args, k, b)),
{
    reveal(ready);
    let row = edges_of(g, k);
    let z = choose|z: Seq<(Str, Option<Sender>)>| #[trigger] lists(z, row) && texts(v) =~= names(z);
    let t = texts(v);
    assert forall|n: Str| #[trigger] t.contains(n) <==> (feeds(args, n, k) && !feeds(args, k, n)) by {
        assert(row.contains_key(n) <==> feeds(args, k, n) || feeds(args, n, k));
        if t.contains(n) { let i = choose|i: int| 0 <= i < t.len() && t[i] == n; assert(z[i].0 == n); }
        if row.contains_key(n) { let i = choose|i: int| 0 <= i < z.len() && (#[trigger] z[i]).0 == n; assert(t[i] == n); }
    }
    assert forall|i: int, j: int| 0 <= i < t.len() && 0 <= j < t.len() && i != j implies t[i] != t[j] by { assert(z[i].0 == t[i] && z[j].0 == t[j]); }
}
pub proof fn forwarded_row(g: Graph<Sender>, k: Str, tos: Seq<String>, s: Map<Str, Sender>)
    ensures
        others(g, forwarded(g, k, tos, s), k),
        forall|b: Str| #[trigger] edges_of(forwarded(g, k, tos, s), k).contains_key(b) <==> edges_of(g, k).contains_key(b) || has_text(tos, b),
        forall|b: Str| has_text(tos, b) ==> #[trigger] edges_of(forwarded(g, k, tos, s), k)[b] == Some(s[b]),
        forall|b: Str| !has_text(tos, b) && edges_of(g, k).contains_key(b) ==> #[trigger] edges_of(forwarded(g, k, tos, s), k)[b] == edges_of(g, k)[b],
    decreases tos.len()
{
    if tos.len() > 0 {
        let p = tos.drop_last();
        forwarded_row(g, k, p, s);
        assert forall|b: Str| has_text(tos, b) <==> has_text(p, b) || b == tos.last()@ by {
            if has_text(tos, b) { let i = choose|i: int| 0 <= i < tos.len() && (#[trigger] tos[i])@ == b; if i < p.len() { assert(p[i]@ == b); } }
            if has_text(p, b) { let i = choose|i: int| 0 <= i < p.len() && (#[trigger] p[i])@ == b; assert(tos[i]@ == b); }
            if b == tos.last()@ { assert(tos[tos.len() - 1]@ == b); }
        }
        let h = forwarded(g, k, p, s);
        let h2 = forwarded(g, k, tos, s);
        assert(h2 == link(h, k, tos.last()@, Some(s[tos.last()@])));
        assert(edges_of(h2, k) == edges_of(h, k).insert(tos.last()@, Some(s[tos.last()@])));
        assert forall|a: Str| a != k implies #[trigger] edges_of(h2, a) == edges_of(g, a) by { assert(edges_of(h2, a) == edges_of(h, a)); }
    }
}
pub proof fn metas_of(z: Seq<(Str, Option<Sender>)>)
    ensures
        forall|i: int| 0 <= i < metas(z).len() ==> exists|j: int| 0 <= j < z.len() && (#[trigger] z[j]).1 == Some(#[trigger] metas(z)[i]),
        forall|j: int| 0 <= j < z.len() && (#[trigger] z[j]).1 is Some ==> metas(z).contains(z[j].1->0),
    decreases z.len()
{
    if z.len() > 0 {
        let p = z.drop_last();
        metas_of(p);
        let m = metas(z);
        assert forall|i: int| 0 <= i < m.len() implies exists|j: int| 0 <= j < z.len() && (#[trigger] z[j]).1 == Some(#[trigger] m[i]) by {
            if i < metas(p).len() { assert(m[i] == metas(p)[i]); let j = choose|j: int| 0 <= j < p.len() && (#[trigger] p[j]).1 == Some(metas(p)[i]); assert(z[j].1 == Some(m[i])); }
            else { assert(z[z.len() - 1].1 == Some(m[i])); }
        }
        assert forall|j: int| 0 <= j < z.len() && (#[trigger] z[j]).1 is Some implies m.contains(z[j].1->0) by {
            if j < p.len() { assert(p[j] == z[j]); let i = choose|i: int| 0 <= i < metas(p).len() && metas(p)[i] == p[j].1->0; assert(m[i] == z[j].1->0); }
            else { assert(m[m.len() - 1] == z[j].1->0); }
        }
    }
}
pub proof fn metas_once(args: Args, z: Seq<(Str, Option<Sender>)>)
    requires
        forall|i: int, j: int| 0 <= i < z.len() && 0 <= j < z.len() && (#[trigger] z[i]).0 == (#[trigger] z[j]).0 ==> i == j,
        forall|i: int| 0 <= i < z.len() && (#[trigger] z[i]).1 is Some ==> z[i].1->0.q() == queue_of(args, z[i].0),
    ensures queues(metas(z)).no_duplicates()
    decreases z.len()
{
    if z.len() > 0 {
        let p = z.drop_last();
        assert forall|i: int, j: int| 0 <= i < p.len() && 0 <= j < p.len() && (#[trigger] p[i]).0 == (#[trigger] p[j]).0 implies i == j by { assert(z[i] == p[i] && z[j] == p[j]); }
        assert forall|i: int| 0 <= i < p.len() && (#[trigger] p[i]).1 is Some implies p[i].1->0.q() == queue_of(args, p[i].0) by { assert(z[i] == p[i]); }
        metas_once(args, p);
        let (m, q) = (metas(z), queues(metas(z)));
        let (m1, q1) = (metas(p), queues(metas(p)));
        metas_of(p);
        assert forall|i: int, j: int| 0 <= i < q.len() && 0 <= j < q.len() && i != j implies q[i] != q[j] by {
            if i < m1.len() && j < m1.len() { assert(q[i] == q1[i] && q[j] == q1[j]); }
            else {
                let x = if i < m1.len() { i } else { j };
                assert(m[x] == m1[x]);
                let a = choose|a: int| 0 <= a < p.len() && (#[trigger] p[a]).1 == Some(m1[x]);
                assert(z[a] == p[a]);
                let l = z.len() - 1;
                assert(z[l].1 is Some && z[l].0 != z[a].0);
                assert(q[x] == queue_of(args, z[a].0));
                assert(q[m1.len() as int] == queue_of(args, z[l].0));
            }
        }
    }
}
/// what `filter_nodes` gives for the edges without metadata
pub open spec fn bare(v: Seq<String>, row: Map<Str, Option<Sender>>) -> bool {
    texts(v).no_duplicates() && forall|n: Str| #[trigger] texts(v).contains(n) <==> row.contains_key(n) && row[n] is None
}
pub proof fn bare_edges<F: Fn(&(&String, &Option<Sender>)) -> bool>(v: Seq<String>, row: Map<Str, Option<Sender>>, f: F)
    requires
        forall|q: &(&String, &Option<Sender>), b: bool| #[trigger] call_ensures(f, (q,), b) ==> b == (q.1 is None),
        forall|i: int| 0 <= i < v.len() ==> #[trigger] accepted(row, f, v[i]@, true),
        forall|i: int, j: int| 0 <= i < j < v.len() ==> (#[trigger] v[i])@ != (#[trigger] v[j])@,
        forall|n: Str| #[trigger] row.contains_key(n) ==> (exists|i: int| 0 <= i < v.len() && (#[trigger] v[i])@ == n) || accepted(row, f, n, false),
    ensures bare(v, row)
{
    let t = texts(v);
    assert forall|n: Str| #[trigger] t.contains(n) <==> row.contains_key(n) && row[n] is None by {
        if t.contains(n) { let i = choose|i: int| 0 <= i < t.len() && t[i] == n; assert(accepted(row, f, v[i]@, true)); let q = choose|q: (&String, &Option<Sender>)| q.0@ == n && *q.1 == row[n] && #[trigger] call_ensures(f, (&q,), true); }
        if row.contains_key(n) && row[n] is None {
            if !exists|i: int| 0 <= i < v.len() && (#[trigger] v[i])@ == n { assert(accepted(row, f, n, false)); let q = choose|q: (&String, &Option<Sender>)| q.0@ == n && *q.1 == row[n] && #[trigger] call_ensures(f, (&q,), false); assert(false); }
            let i = choose|i: int| 0 <= i < v.len() && (#[trigger] v[i])@ == n;
            assert(t[i] == n);
        }
    }
    assert forall|i: int, j: int| 0 <= i < t.len() && 0 <= j < t.len() && i != j implies t[i] != t[j] by { if i < j { assert(v[i]@ != v[j]@); } else { assert(v[j]@ != v[i]@); } }
}
/// the queues of a component's forwards, and the names of those who forward to it, off its edges
pub proof fn edges_to(args: Args, g: Graph<Sender>, s: Map<Str, Sender>, r: Map<Str, Receiver>, d: ISet<Str>, k: Str, v: Seq<Sender>)
    requires
        ready(args, g, s, r, d), stated(args, k) is Some, !d.contains(k),
        forall|i: int| 0 <= i < forwards(stated(args, k)->0).len() ==> s.contains_key((#[trigger] forwards(stated(args, k)->0)[i])@),
        listed_metas(v, edges_of(forwarded(g, k, forwards(stated(args, k)->0), s), k)),
    ensures
        exactly_queues(args, queues(v), |b: Str| feeds(args, k, b)),
        forall|b: Str| #[trigger] feeds(args, k, b) ==> stated(args, b) is Some && reads(b),
        others(g, forwarded(g, k, forwards(stated(args, k)->0), s), k),
        forall|b: Str| edges_of(forwarded(g, k, forwards(stated(args, k)->0), s), k).contains_key(b) && edges_of(forwarded(g, k, forwards(stated(args, k)->0), s), k)[b] is None <==> feeds(args, b, k) && !feeds(args, k, b),
{
    reveal(ready);
    let f = forwards(stated(args, k)->0);
    let row = edges_of(forwarded(g, k, f, s), k);
    forwarded_row(g, k, f, s);
    assert forall|b: Str| #[trigger] feeds(args, k, b) implies stated(args, b) is Some && reads(b) by { let i = choose|i: int| 0 <= i < f.len() && (#[trigger] f[i])@ == b; assert(s.contains_key(f[i]@)); }
    assert forall|b: Str| row.contains_key(b) && row[b] is Some <==> feeds(args, k, b) by {
        assert(edges_of(g, k).contains_key(b) <==> feeds(args, k, b) || feeds(args, b, k));
    }
    assert forall|b: Str| row.contains_key(b) && row[b] is None <==> feeds(args, b, k) && !feeds(args, k, b) by {
        assert(edges_of(g, k).contains_key(b) <==> feeds(args, k, b) || feeds(args, b, k));
        assert(row.contains_key(b) <==> edges_of(g, k).contains_key(b) || has_text(f, b));
    }
    assert forall|b: Str| #[trigger] row.contains_key(b) && row[b] is Some implies row[b]->0.q() == queue_of(args, b) by {
        assert(feeds(args, k, b));
        let i = choose|i: int| 0 <= i < f.len() && (#[trigger] f[i])@ == b;
        assert(s.contains_key(f[i]@));
    }
    let z = choose|z: Seq<(Str, Option<Sender>)>| #[trigger] lists(z, row) && v =~= metas(z);
    metas_of(z);
    assert forall|i: int| 0 <= i < z.len() && (#[trigger] z[i]).1 is Some implies z[i].1->0.q() == queue_of(args, z[i].0) by { assert(row.contains_key(z[i].0) && row[z[i].0] == z[i].1); }
    metas_once(args, z);
    let q = queues(v);
    let p = |b: Str| feeds(args, k, b);
    assert forall|i: int| 0 <= i < q.len() implies #[trigger] q[i] == queue_of(args, q[i].name) by {
        let j = choose|j: int| 0 <= j < z.len() && (#[trigger] z[j]).1 == Some(metas(z)[i]);
        assert(q[i] == queue_of(args, z[j].0));
    }
    assert forall|n: Str| #[trigger] p(n) <==> q.contains(queue_of(args, n)) by {
        if feeds(args, k, n) {
            assert(row.contains_key(n));
            let j = choose|j: int| 0 <= j < z.len() && (#[trigger] z[j]).0 == n;
            assert(z[j].1 is Some);
            let i = choose|i: int| 0 <= i < metas(z).len() && metas(z)[i] == z[j].1->0;
            assert(q[i] == queue_of(args, n));
        }
        if q.contains(queue_of(args, n)) {
            let i = choose|i: int| 0 <= i < q.len() && q[i] == queue_of(args, n);
            let j = choose|j: int| 0 <= j < z.len() && (#[trigger] z[j]).1 == Some(metas(z)[i]);
            assert(z[j].0 == n);
            assert(row.contains_key(n));
        }
    }
}
pub proof fn without(g: Graph<Sender>, g1: Graph<Sender>, k: Str)
    requires others(g, g1, k)
    ensures others(g, g1.remove(k), k)
{
    assert forall|a: Str| a != k implies #[trigger] edges_of(g1.remove(k), a) == edges_of(g, a) by { assert(edges_of(g1, a) == edges_of(g, a)); }
}
pub proof fn from_bare(args: Args, v: Seq<String>, row: Map<Str, Option<Sender>>, k: Str)
    requires bare(v, row), forall|b: Str| row.contains_key(b) && row[b] is None <==> feeds(args, b, k) && !feeds(args, k, b)
    ensures exactly(texts(v), |a: Str| feeds(args, a, k) && !feeds(args, k, a))
{ }
pub proof fn in_name_set(v: Seq<String>, b: Str)
    ensures name_set(v).contains(b) == has_text(v, b)
    decreases v.len()
{
    if v.len() > 0 {
        in_name_set(v.drop_last(), b);
        if has_text(v, b) { let i = choose|i: int| 0 <= i < v.len() && (#[trigger] v[i])@ == b; if i < v.len() - 1 { assert(v.drop_last()[i]@ == b); } }
        if has_text(v.drop_last(), b) { let i = choose|i: int| 0 <= i < v.len() - 1 && (#[trigger] v.drop_last()[i])@ == b; assert(v[i]@ == b); }
        assert(v.last() == v[v.len() - 1]);
    }
}
pub proof fn more_pulses(args: Args, f: Set<Str>, f2: Set<Str>, d: ISet<Str>, k: Str)
    requires pulsed(args, f, d), stated(args, k) is Some, !reads(k), f2 == f.union(name_set(forwards(stated(args, k)->0)))
    ensures pulsed(args, f2, d.insert(k))
{
    let e = d.insert(k);
    let v = forwards(stated(args, k)->0);
    assert forall|b: Str| #[trigger] f2.contains(b) <==> exists|a: Str| e.contains(a) && !reads(a) && #[trigger] feeds(args, a, b) by {
        in_name_set(v, b);
        if f.contains(b) { let a = choose|a: Str| d.contains(a) && !reads(a) && #[trigger] feeds(args, a, b); assert(e.contains(a)); }
        if has_text(v, b) { assert(e.contains(k) && feeds(args, k, b)); }
        if exists|a: Str| e.contains(a) && !reads(a) && #[trigger] feeds(args, a, b) { let a = choose|a: Str| e.contains(a) && !reads(a) && #[trigger] feeds(args, a, b); if a != k { assert(d.contains(a)); assert(f.contains(b)); } }
    }
}
pub proof fn none_twice<V>(s: Seq<(Str, V)>, n: int)
    requires 0 <= n < s.len(), forall|i: int, j: int| 0 <= i < s.len() && 0 <= j < s.len() && (#[trigger] s[i]).0 == (#[trigger] s[j]).0 ==> i == j
    ensures !done_map(s, n).contains(s[n].0)
{ }

/*@ part src/bin/cernan.rs main `if let Some(config) = mem::replace(&mut args.null, None) { $*b }`
sig:
    pub fn start_null(config: NullConfig, receivers: &mut NameMap<Receiver>, adjacency_matrix: &mut Adjacency<Sender>, sinks: &mut NameMap<ThreadHandle>, Ghost(args): Ghost<Args>, Ghost(s): Ghost<Map<Str, Sender>>, Ghost(d): Ghost<ISet<Str>>)
spec:
    requires well_named(args), args.null == Some(config), ready(args, old(adjacency_matrix).g(), s, old(receivers)@, d), running(args, old(sinks)@, 0, 8, d), d.disjoint(of_kind(0))
    ensures ready(args, final(adjacency_matrix).g(), s, final(receivers)@, d.union(of_kind(0))), running(args, final(sinks)@, 0, 8, d.union(of_kind(0)))
at fn-start:
    let ghost k = config.config_path@;
    proof { assert(of_kind(0).contains(k)); assert(stated(args, k) == stated_0(args, k)); }
at before `sinks.insert(`:
    let ghost from = sources@;
    proof { assert(recv.q() == queue_of(args, k)) by { reveal(ready); } names_from(args, old(adjacency_matrix).g(), s, old(receivers)@, d, k, from); }
at fn-end:
    proof {
        assert(sinks@ == old(sinks)@.insert(k, sinks@[k]));
        assert(sinks@[k].job().to =~= Seq::empty());
        step(args, old(adjacency_matrix).g(), adjacency_matrix.g(), s, old(receivers)@, receivers@, old(sinks)@, sinks@[k], 0, 8, d, k);
        assert forall|x: Str| stated(args, x) is Some implies d.insert(k).contains(x) == d.union(of_kind(0)).contains(x) by { if kind_of(x) == 0 { assert(stated(args, x) == stated_0(args, x)); } }
        same_ready(args, adjacency_matrix.g(), s, receivers@, d.insert(k), d.union(of_kind(0)));
        same_running(args, sinks@, 0, 8, d.insert(k), d.union(of_kind(0)));
    }
@*/
/*@ part src/bin/cernan.rs main `if let Some(config) = mem::replace(&mut args.console, None) { $*b }`
sig:
    pub fn start_console(config: ConsoleConfig, receivers: &mut NameMap<Receiver>, adjacency_matrix: &mut Adjacency<Sender>, sinks: &mut NameMap<ThreadHandle>, Ghost(args): Ghost<Args>, Ghost(s): Ghost<Map<Str, Sender>>, Ghost(d): Ghost<ISet<Str>>)
spec:
    requires well_named(args), args.console == Some(config), ready(args, old(adjacency_matrix).g(), s, old(receivers)@, d), running(args, old(sinks)@, 0, 8, d), d.disjoint(of_kind(1))
    ensures ready(args, final(adjacency_matrix).g(), s, final(receivers)@, d.union(of_kind(1))), running(args, final(sinks)@, 0, 8, d.union(of_kind(1)))
at fn-start:
    let ghost k = config.config_path->0@;
    proof { assert(of_kind(1).contains(k)); assert(stated(args, k) == stated_1(args, k)); }
at before `sinks.insert(`:
    let ghost from = sources@;
    proof { assert(recv.q() == queue_of(args, k)) by { reveal(ready); } names_from(args, old(adjacency_matrix).g(), s, old(receivers)@, d, k, from); }
at fn-end:
    proof {
        assert(sinks@ == old(sinks)@.insert(k, sinks@[k]));
        assert(sinks@[k].job().to =~= Seq::empty());
        step(args, old(adjacency_matrix).g(), adjacency_matrix.g(), s, old(receivers)@, receivers@, old(sinks)@, sinks@[k], 0, 8, d, k);
        assert forall|x: Str| stated(args, x) is Some implies d.insert(k).contains(x) == d.union(of_kind(1)).contains(x) by { if kind_of(x) == 1 { assert(stated(args, x) == stated_1(args, x)); } }
        same_ready(args, adjacency_matrix.g(), s, receivers@, d.insert(k), d.union(of_kind(1)));
        same_running(args, sinks@, 0, 8, d.insert(k), d.union(of_kind(1)));
    }
@*/
/*@ part src/bin/cernan.rs main `if let Some(config) = mem::replace(&mut args.wavefront, None) { $*b }`
sig:
    pub fn start_wavefront(config: WavefrontConfig, receivers: &mut NameMap<Receiver>, adjacency_matrix: &mut Adjacency<Sender>, sinks: &mut NameMap<ThreadHandle>, Ghost(args): Ghost<Args>, Ghost(s): Ghost<Map<Str, Sender>>, Ghost(d): Ghost<ISet<Str>>)
spec:
    requires well_named(args), args.wavefront == Some(config), ready(args, old(adjacency_matrix).g(), s, old(receivers)@, d), running(args, old(sinks)@, 0, 8, d), d.disjoint(of_kind(2))
    ensures ready(args, final(adjacency_matrix).g(), s, final(receivers)@, d.union(of_kind(2))), running(args, final(sinks)@, 0, 8, d.union(of_kind(2)))
at fn-start:
    let ghost k = config.config_path->0@;
    proof { assert(of_kind(2).contains(k)); assert(stated(args, k) == stated_2(args, k)); }
at before `sinks.insert(`:
    let ghost from = sources@;
    proof { assert(recv.q() == queue_of(args, k)) by { reveal(ready); } names_from(args, old(adjacency_matrix).g(), s, old(receivers)@, d, k, from); }
at fn-end:
    proof {
        assert(sinks@ == old(sinks)@.insert(k, sinks@[k]));
        assert(sinks@[k].job().to =~= Seq::empty());
        step(args, old(adjacency_matrix).g(), adjacency_matrix.g(), s, old(receivers)@, receivers@, old(sinks)@, sinks@[k], 0, 8, d, k);
        assert forall|x: Str| stated(args, x) is Some implies d.insert(k).contains(x) == d.union(of_kind(2)).contains(x) by { if kind_of(x) == 2 { assert(stated(args, x) == stated_2(args, x)); } }
        same_ready(args, adjacency_matrix.g(), s, receivers@, d.insert(k), d.union(of_kind(2)));
        same_running(args, sinks@, 0, 8, d.insert(k), d.union(of_kind(2)));
    }
@*/
/*@ part src/bin/cernan.rs main `if let Some(config) = mem::replace(&mut args.prometheus, None) { $*b }`
sig:
    pub fn start_prometheus(config: PrometheusConfig, receivers: &mut NameMap<Receiver>, adjacency_matrix: &mut Adjacency<Sender>, sinks: &mut NameMap<ThreadHandle>, Ghost(args): Ghost<Args>, Ghost(s): Ghost<Map<Str, Sender>>, Ghost(d): Ghost<ISet<Str>>)
spec:
    requires well_named(args), args.prometheus == Some(config), ready(args, old(adjacency_matrix).g(), s, old(receivers)@, d), running(args, old(sinks)@, 0, 8, d), d.disjoint(of_kind(3))
    ensures ready(args, final(adjacency_matrix).g(), s, final(receivers)@, d.union(of_kind(3))), running(args, final(sinks)@, 0, 8, d.union(of_kind(3)))
at fn-start:
    let ghost k = config.config_path->0@;
    proof { assert(of_kind(3).contains(k)); assert(stated(args, k) == stated_3(args, k)); }
at before `sinks.insert(`:
    let ghost from = sources@;
    proof { assert(recv.q() == queue_of(args, k)) by { reveal(ready); } names_from(args, old(adjacency_matrix).g(), s, old(receivers)@, d, k, from); }
at fn-end:
    proof {
        assert(sinks@ == old(sinks)@.insert(k, sinks@[k]));
        assert(sinks@[k].job().to =~= Seq::empty());
        step(args, old(adjacency_matrix).g(), adjacency_matrix.g(), s, old(receivers)@, receivers@, old(sinks)@, sinks@[k], 0, 8, d, k);
        assert forall|x: Str| stated(args, x) is Some implies d.insert(k).contains(x) == d.union(of_kind(3)).contains(x) by { if kind_of(x) == 3 { assert(stated(args, x) == stated_3(args, x)); } }
        same_ready(args, adjacency_matrix.g(), s, receivers@, d.insert(k), d.union(of_kind(3)));
        same_running(args, sinks@, 0, 8, d.insert(k), d.union(of_kind(3)));
    }
@*/
/*@ part src/bin/cernan.rs main `if let Some(config) = mem::replace(&mut args.influxdb, None) { $*b }`
sig:
    pub fn start_influxdb(config: InfluxDBConfig, receivers: &mut NameMap<Receiver>, adjacency_matrix: &mut Adjacency<Sender>, sinks: &mut NameMap<ThreadHandle>, Ghost(args): Ghost<Args>, Ghost(s): Ghost<Map<Str, Sender>>, Ghost(d): Ghost<ISet<Str>>)
spec:
    requires well_named(args), args.influxdb == Some(config), ready(args, old(adjacency_matrix).g(), s, old(receivers)@, d), running(args, old(sinks)@, 0, 8, d), d.disjoint(of_kind(4))
    ensures ready(args, final(adjacency_matrix).g(), s, final(receivers)@, d.union(of_kind(4))), running(args, final(sinks)@, 0, 8, d.union(of_kind(4)))
at fn-start:
    let ghost k = config.config_path->0@;
    proof { assert(of_kind(4).contains(k)); assert(stated(args, k) == stated_4(args, k)); }
at before `sinks.insert(`:
    let ghost from = sources@;
    proof { assert(recv.q() == queue_of(args, k)) by { reveal(ready); } names_from(args, old(adjacency_matrix).g(), s, old(receivers)@, d, k, from); }
at fn-end:
    proof {
        assert(sinks@ == old(sinks)@.insert(k, sinks@[k]));
        assert(sinks@[k].job().to =~= Seq::empty());
        step(args, old(adjacency_matrix).g(), adjacency_matrix.g(), s, old(receivers)@, receivers@, old(sinks)@, sinks@[k], 0, 8, d, k);
        assert forall|x: Str| stated(args, x) is Some implies d.insert(k).contains(x) == d.union(of_kind(4)).contains(x) by { if kind_of(x) == 4 { assert(stated(args, x) == stated_4(args, x)); } }
        same_ready(args, adjacency_matrix.g(), s, receivers@, d.insert(k), d.union(of_kind(4)));
        same_running(args, sinks@, 0, 8, d.insert(k), d.union(of_kind(4)));
    }
@*/
/*@ part src/bin/cernan.rs main `if let Some(config) = mem::replace(&mut args.native_sink_config, None) { $*b }`
sig:
    pub fn start_native_sink_config(config: NativeConfig, receivers: &mut NameMap<Receiver>, adjacency_matrix: &mut Adjacency<Sender>, sinks: &mut NameMap<ThreadHandle>, Ghost(args): Ghost<Args>, Ghost(s): Ghost<Map<Str, Sender>>, Ghost(d): Ghost<ISet<Str>>)
spec:
    requires well_named(args), args.native_sink_config == Some(config), ready(args, old(adjacency_matrix).g(), s, old(receivers)@, d), running(args, old(sinks)@, 0, 8, d), d.disjoint(of_kind(5))
    ensures ready(args, final(adjacency_matrix).g(), s, final(receivers)@, d.union(of_kind(5))), running(args, final(sinks)@, 0, 8, d.union(of_kind(5)))
at fn-start:
    let ghost k = config.config_path->0@;
    proof { assert(of_kind(5).contains(k)); assert(stated(args, k) == stated_5(args, k)); }
at before `sinks.insert(`:
    let ghost from = sources@;
    proof { assert(recv.q() == queue_of(args, k)) by { reveal(ready); } names_from(args, old(adjacency_matrix).g(), s, old(receivers)@, d, k, from); }
at fn-end:
    proof {
        assert(sinks@ == old(sinks)@.insert(k, sinks@[k]));
        assert(sinks@[k].job().to =~= Seq::empty());
        step(args, old(adjacency_matrix).g(), adjacency_matrix.g(), s, old(receivers)@, receivers@, old(sinks)@, sinks@[k], 0, 8, d, k);
        assert forall|x: Str| stated(args, x) is Some implies d.insert(k).contains(x) == d.union(of_kind(5)).contains(x) by { if kind_of(x) == 5 { assert(stated(args, x) == stated_5(args, x)); } }
        same_ready(args, adjacency_matrix.g(), s, receivers@, d.insert(k), d.union(of_kind(5)));
        same_running(args, sinks@, 0, 8, d.insert(k), d.union(of_kind(5)));
    }
@*/
/*@ part src/bin/cernan.rs main `if let Some(config) = mem::replace(&mut args.elasticsearch, None) { $*b }`
sig:
    pub fn start_elasticsearch(config: ElasticsearchConfig, receivers: &mut NameMap<Receiver>, adjacency_matrix: &mut Adjacency<Sender>, sinks: &mut NameMap<ThreadHandle>, Ghost(args): Ghost<Args>, Ghost(s): Ghost<Map<Str, Sender>>, Ghost(d): Ghost<ISet<Str>>)
spec:
    requires well_named(args), args.elasticsearch == Some(config), ready(args, old(adjacency_matrix).g(), s, old(receivers)@, d), running(args, old(sinks)@, 0, 8, d), d.disjoint(of_kind(6))
    ensures ready(args, final(adjacency_matrix).g(), s, final(receivers)@, d.union(of_kind(6))), running(args, final(sinks)@, 0, 8, d.union(of_kind(6)))
at fn-start:
    let ghost k = config.config_path->0@;
    proof { assert(of_kind(6).contains(k)); assert(stated(args, k) == stated_6(args, k)); }
at before `sinks.insert(`:
    let ghost from = sources@;
    proof { assert(recv.q() == queue_of(args, k)) by { reveal(ready); } names_from(args, old(adjacency_matrix).g(), s, old(receivers)@, d, k, from); }
at fn-end:
    proof {
        assert(sinks@ == old(sinks)@.insert(k, sinks@[k]));
        assert(sinks@[k].job().to =~= Seq::empty());
        step(args, old(adjacency_matrix).g(), adjacency_matrix.g(), s, old(receivers)@, receivers@, old(sinks)@, sinks@[k], 0, 8, d, k);
        assert forall|x: Str| stated(args, x) is Some implies d.insert(k).contains(x) == d.union(of_kind(6)).contains(x) by { if kind_of(x) == 6 { assert(stated(args, x) == stated_6(args, x)); } }
        same_ready(args, adjacency_matrix.g(), s, receivers@, d.insert(k), d.union(of_kind(6)));
        same_running(args, sinks@, 0, 8, d.insert(k), d.union(of_kind(6)));
    }
@*/
/*@ part src/bin/cernan.rs main `if let Some(cfgs) = mem::replace(&mut args.kafkas, None) { $*b }`
sig:
    pub fn start_kafkas(cfgs: Vec<KafkaConfig>, receivers: &mut NameMap<Receiver>, adjacency_matrix: &mut Adjacency<Sender>, sinks: &mut NameMap<ThreadHandle>, Ghost(args): Ghost<Args>, Ghost(s): Ghost<Map<Str, Sender>>, Ghost(d): Ghost<ISet<Str>>)
rw `for config in cfgs {` => `let ghost lst = cfgs@; for config in cfgs {`
spec:
    requires well_named(args), args.kafkas == Some(cfgs), ready(args, old(adjacency_matrix).g(), s, old(receivers)@, d), running(args, old(sinks)@, 0, 8, d), d.disjoint(of_kind(7))
    ensures ready(args, final(adjacency_matrix).g(), s, final(receivers)@, d.union(of_kind(7))), running(args, final(sinks)@, 0, 8, d.union(of_kind(7)))
loop 1 for iter it:
    invariant
        well_named(args), d.disjoint(of_kind(7)), lst == it.seq(), args.kafkas->0@ == lst, args.kafkas is Some,
        ready(args, adjacency_matrix.g(), s, receivers@, d.union(done_kafkas(lst, it.index()))), running(args, sinks@, 0, 8, d.union(done_kafkas(lst, it.index()))),
at loop 1 before:
    proof { same_ready(args, adjacency_matrix.g(), s, receivers@, d, d.union(done_kafkas(lst, 0))); same_running(args, sinks@, 0, 8, d, d.union(done_kafkas(lst, 0))); }
at loop 1 start:
    let ghost k = config.config_path->0@;
    let ghost (g0, r0, h0) = (adjacency_matrix.g(), receivers@, sinks@);
    let ghost d0 = d.union(done_kafkas(lst, it.index()));
    proof {
        assert(config == lst[it.index()]); assert(named(lst[it.index()].config_path, k)); pick_kafkas(args, it.index());
        assert(kind_of(k) == 7 && of_kind(7).contains(k));
        assert(stated(args, k) == stated_7(args, k));
        
        assert(!d0.contains(k));
    }
at before `sinks.insert(`:
    let ghost from = sources@;
    proof { assert(recv.q() == queue_of(args, k)) by { reveal(ready); } names_from(args, g0, s, r0, d0, k, from); }
at loop 1 end:
    proof {
        assert(sinks@ == h0.insert(k, sinks@[k]));
        assert(sinks@[k].job().to =~= Seq::empty());
        
        step(args, g0, adjacency_matrix.g(), s, r0, receivers@, h0, sinks@[k], 0, 8, d0, k);
        
        let e = d.union(done_kafkas(lst, it.index() + 1));
        assert forall|x: Str| d0.insert(k).contains(x) == e.contains(x) by { if named(lst[it.index()].config_path, x) { assert(done_kafkas(lst, it.index() + 1).contains(x)); } }
        same_ready(args, adjacency_matrix.g(), s, receivers@, d0.insert(k), e); same_running(args, sinks@, 0, 8, d0.insert(k), e);
    }
at loop 1 after:
    proof {
        let e = d.union(done_kafkas(lst, lst.len() as int));
        assert forall|x: Str| stated(args, x) is Some implies e.contains(x) == d.union(of_kind(7)).contains(x) by { if kind_of(x) == 7 { assert(stated(args, x) == stated_7(args, x)); } }
        same_ready(args, adjacency_matrix.g(), s, receivers@, e, d.union(of_kind(7))); same_running(args, sinks@, 0, 8, e, d.union(of_kind(7)));
    }
@*/
/*@ part src/bin/cernan.rs main `if let Some(cfg_map) = mem::replace(&mut args.programmable_filters, None) { $*b }`
sig:
    pub fn start_programmable_filters(cfg_map: HashMap<String, ProgrammableFilterConfig>, receivers: &mut NameMap<Receiver>, adjacency_matrix: &mut Adjacency<Sender>, senders: &NameMap<Sender>, filters: &mut NameMap<ThreadHandle>, Ghost(args): Ghost<Args>, Ghost(d): Ghost<ISet<Str>>)
rw `for config in cfg_map.values() {` => `let es = held(&cfg_map); let ghost lst = choose|z: Seq<(Str, ProgrammableFilterConfig)>| #[trigger] lists(z, cfg_map@) && es@.len() == z.len() && forall|i: int| 0 <= i < z.len() ==> *(#[trigger] es@[i]) == z[i].1; for config in es {`
rw `populate_forwards(None, $*a)` => `populate_forwards(None, &mut none, $*a)`
rw `&mut adjacency_matrix` => `adjacency_matrix`
rw `&senders` => `senders`
rw `let sources = adjacency_matrix.filter_nodes($*p, |&($k, $o)| $*b, );` => `let f = |q: &(&String, &Option<Sender>)| -> (r: bool) ensures r == (q.1 is None) { let ($k, $o) = *q; $*b }; let ghost row = edges_of(adjacency_matrix.g(), k); let sources = adjacency_matrix.filter_nodes($*p, f); proof { bare_edges(sources@, row, f); }`
spec:
    requires well_named(args), args.programmable_filters == Some(cfg_map), ready(args, old(adjacency_matrix).g(), senders@, old(receivers)@, d), running(args, old(filters)@, 8, 12, d), d.disjoint(of_kind(8))
    ensures ready(args, final(adjacency_matrix).g(), senders@, final(receivers)@, d.union(of_kind(8))), running(args, final(filters)@, 8, 12, d.union(of_kind(8)))
at fn-start:
    let mut none = NameSet::new();
loop 1 for iter it:
    invariant
        well_named(args), d.disjoint(of_kind(8)), lists(lst, cfg_map@), lst.len() == it.seq().len(), forall|i: int| 0 <= i < lst.len() ==> *(#[trigger] it.seq()[i]) == lst[i].1, args.programmable_filters == Some(cfg_map),
        ready(args, adjacency_matrix.g(), senders@, receivers@, d.union(done_map(lst, it.index()))), running(args, filters@, 8, 12, d.union(done_map(lst, it.index()))),
at loop 1 before:
    proof { same_ready(args, adjacency_matrix.g(), senders@, receivers@, d, d.union(done_map(lst, 0))); same_running(args, filters@, 8, 12, d, d.union(done_map(lst, 0))); }
at loop 1 start:
    let ghost k = lst[it.index()].0;
    let ghost (g0, r0, h0) = (adjacency_matrix.g(), receivers@, filters@);
    let ghost d0 = d.union(done_map(lst, it.index()));
    proof {
        assert(*it.seq()[it.index()] == lst[it.index()].1); assert(cfg_map@.contains_key(k) && cfg_map@[k] == *config && named(config.config_path, k));
        assert(kind_of(k) == 8 && of_kind(8).contains(k));
        assert(stated(args, k) == stated_8(args, k));
        none_twice(lst, it.index());
        assert(!d0.contains(k));
    }
at before `filters.insert(`:
    proof {
        assert(recv.q() == queue_of(args, k)) by { reveal(ready); }
        edges_to(args, g0, senders@, r0, d0, k, downstream_sends@);
        from_bare(args, sources@, row, k);
    }
at loop 1 end:
    proof {
        assert(filters@ == h0.insert(k, filters@[k]));
        
        without(g0, forwarded(g0, k, forwards(stated(args, k)->0), senders@), k);
        step(args, g0, adjacency_matrix.g(), senders@, r0, receivers@, h0, filters@[k], 8, 12, d0, k);
        
        let e = d.union(done_map(lst, it.index() + 1));
        assert forall|x: Str| d0.insert(k).contains(x) == e.contains(x) by { grow_map(lst, it.index(), x); }
        same_ready(args, adjacency_matrix.g(), senders@, receivers@, d0.insert(k), e); same_running(args, filters@, 8, 12, d0.insert(k), e);
    }
at loop 1 after:
    proof {
        let e = d.union(done_map(lst, lst.len() as int));
        assert forall|x: Str| stated(args, x) is Some implies e.contains(x) == d.union(of_kind(8)).contains(x) by { assert(stated(args, x) is Some && kind_of(x) == 8 ==> stated(args, x) == stated_8(args, x)); all_map(lst, cfg_map@, x); }
        same_ready(args, adjacency_matrix.g(), senders@, receivers@, e, d.union(of_kind(8))); same_running(args, filters@, 8, 12, e, d.union(of_kind(8)));
    }
@*/
/*@ part src/bin/cernan.rs main `if let Some(cfg_map) = mem::replace(&mut args.delay_filters, None) { $*b }`
sig:
    pub fn start_delay_filters(cfg_map: HashMap<String, DelayFilterConfig>, receivers: &mut NameMap<Receiver>, adjacency_matrix: &mut Adjacency<Sender>, senders: &NameMap<Sender>, filters: &mut NameMap<ThreadHandle>, Ghost(args): Ghost<Args>, Ghost(d): Ghost<ISet<Str>>)
rw `for config in cfg_map.values() {` => `let es = held(&cfg_map); let ghost lst = choose|z: Seq<(Str, DelayFilterConfig)>| #[trigger] lists(z, cfg_map@) && es@.len() == z.len() && forall|i: int| 0 <= i < z.len() ==> *(#[trigger] es@[i]) == z[i].1; for config in es {`
rw `populate_forwards(None, $*a)` => `populate_forwards(None, &mut none, $*a)`
rw `&mut adjacency_matrix` => `adjacency_matrix`
rw `&senders` => `senders`
rw `let sources = adjacency_matrix.filter_nodes($*p, |&($k, $o)| $*b, );` => `let f = |q: &(&String, &Option<Sender>)| -> (r: bool) ensures r == (q.1 is None) { let ($k, $o) = *q; $*b }; let ghost row = edges_of(adjacency_matrix.g(), k); let sources = adjacency_matrix.filter_nodes($*p, f); proof { bare_edges(sources@, row, f); }`
spec:
    requires well_named(args), args.delay_filters == Some(cfg_map), ready(args, old(adjacency_matrix).g(), senders@, old(receivers)@, d), running(args, old(filters)@, 8, 12, d), d.disjoint(of_kind(9))
    ensures ready(args, final(adjacency_matrix).g(), senders@, final(receivers)@, d.union(of_kind(9))), running(args, final(filters)@, 8, 12, d.union(of_kind(9)))
at fn-start:
    let mut none = NameSet::new();
loop 1 for iter it:
    invariant
        well_named(args), d.disjoint(of_kind(9)), lists(lst, cfg_map@), lst.len() == it.seq().len(), forall|i: int| 0 <= i < lst.len() ==> *(#[trigger] it.seq()[i]) == lst[i].1, args.delay_filters == Some(cfg_map),
        ready(args, adjacency_matrix.g(), senders@, receivers@, d.union(done_map(lst, it.index()))), running(args, filters@, 8, 12, d.union(done_map(lst, it.index()))),
at loop 1 before:
    proof { same_ready(args, adjacency_matrix.g(), senders@, receivers@, d, d.union(done_map(lst, 0))); same_running(args, filters@, 8, 12, d, d.union(done_map(lst, 0))); }
at loop 1 start:
    let ghost k = lst[it.index()].0;
    let ghost (g0, r0, h0) = (adjacency_matrix.g(), receivers@, filters@);
    let ghost d0 = d.union(done_map(lst, it.index()));
    proof {
        assert(*it.seq()[it.index()] == lst[it.index()].1); assert(cfg_map@.contains_key(k) && cfg_map@[k] == *config && named(config.config_path, k));
        assert(kind_of(k) == 9 && of_kind(9).contains(k));
        assert(stated(args, k) == stated_9(args, k));
        none_twice(lst, it.index());
        assert(!d0.contains(k));
    }
at before `filters.insert(`:
    proof {
        assert(recv.q() == queue_of(args, k)) by { reveal(ready); }
        edges_to(args, g0, senders@, r0, d0, k, downstream_sends@);
        from_bare(args, sources@, row, k);
    }
at loop 1 end:
    proof {
        assert(filters@ == h0.insert(k, filters@[k]));
        
        without(g0, forwarded(g0, k, forwards(stated(args, k)->0), senders@), k);
        step(args, g0, adjacency_matrix.g(), senders@, r0, receivers@, h0, filters@[k], 8, 12, d0, k);
        
        let e = d.union(done_map(lst, it.index() + 1));
        assert forall|x: Str| d0.insert(k).contains(x) == e.contains(x) by { grow_map(lst, it.index(), x); }
        same_ready(args, adjacency_matrix.g(), senders@, receivers@, d0.insert(k), e); same_running(args, filters@, 8, 12, d0.insert(k), e);
    }
at loop 1 after:
    proof {
        let e = d.union(done_map(lst, lst.len() as int));
        assert forall|x: Str| stated(args, x) is Some implies e.contains(x) == d.union(of_kind(9)).contains(x) by { assert(stated(args, x) is Some && kind_of(x) == 9 ==> stated(args, x) == stated_9(args, x)); all_map(lst, cfg_map@, x); }
        same_ready(args, adjacency_matrix.g(), senders@, receivers@, e, d.union(of_kind(9))); same_running(args, filters@, 8, 12, e, d.union(of_kind(9)));
    }
@*/
/*@ part src/bin/cernan.rs main `if let Some(cfg_map) = mem::replace(&mut args.json_encode_filters, None) { $*b }`
sig:
    pub fn start_json_encode_filters(cfg_map: HashMap<String, JSONEncodeFilterConfig>, receivers: &mut NameMap<Receiver>, adjacency_matrix: &mut Adjacency<Sender>, senders: &NameMap<Sender>, filters: &mut NameMap<ThreadHandle>, Ghost(args): Ghost<Args>, Ghost(d): Ghost<ISet<Str>>)
rw `for config in cfg_map.values() {` => `let es = held(&cfg_map); let ghost lst = choose|z: Seq<(Str, JSONEncodeFilterConfig)>| #[trigger] lists(z, cfg_map@) && es@.len() == z.len() && forall|i: int| 0 <= i < z.len() ==> *(#[trigger] es@[i]) == z[i].1; for config in es {`
rw `populate_forwards(None, $*a)` => `populate_forwards(None, &mut none, $*a)`
rw `&mut adjacency_matrix` => `adjacency_matrix`
rw `&senders` => `senders`
rw `let sources = adjacency_matrix.filter_nodes($*p, |&($k, $o)| $*b, );` => `let f = |q: &(&String, &Option<Sender>)| -> (r: bool) ensures r == (q.1 is None) { let ($k, $o) = *q; $*b }; let ghost row = edges_of(adjacency_matrix.g(), k); let sources = adjacency_matrix.filter_nodes($*p, f); proof { bare_edges(sources@, row, f); }`
spec:
    requires well_named(args), args.json_encode_filters == Some(cfg_map), ready(args, old(adjacency_matrix).g(), senders@, old(receivers)@, d), running(args, old(filters)@, 8, 12, d), d.disjoint(of_kind(10))
    ensures ready(args, final(adjacency_matrix).g(), senders@, final(receivers)@, d.union(of_kind(10))), running(args, final(filters)@, 8, 12, d.union(of_kind(10)))
at fn-start:
    let mut none = NameSet::new();
loop 1 for iter it:
    invariant
        well_named(args), d.disjoint(of_kind(10)), lists(lst, cfg_map@), lst.len() == it.seq().len(), forall|i: int| 0 <= i < lst.len() ==> *(#[trigger] it.seq()[i]) == lst[i].1, args.json_encode_filters == Some(cfg_map),
        ready(args, adjacency_matrix.g(), senders@, receivers@, d.union(done_map(lst, it.index()))), running(args, filters@, 8, 12, d.union(done_map(lst, it.index()))),
at loop 1 before:
    proof { same_ready(args, adjacency_matrix.g(), senders@, receivers@, d, d.union(done_map(lst, 0))); same_running(args, filters@, 8, 12, d, d.union(done_map(lst, 0))); }
at loop 1 start:
    let ghost k = lst[it.index()].0;
    let ghost (g0, r0, h0) = (adjacency_matrix.g(), receivers@, filters@);
    let ghost d0 = d.union(done_map(lst, it.index()));
    proof {
        assert(*it.seq()[it.index()] == lst[it.index()].1); assert(cfg_map@.contains_key(k) && cfg_map@[k] == *config && named(config.config_path, k));
        assert(kind_of(k) == 10 && of_kind(10).contains(k));
        assert(stated(args, k) == stated_10(args, k));
        none_twice(lst, it.index());
        assert(!d0.contains(k));
    }
at before `filters.insert(`:
    proof {
        assert(recv.q() == queue_of(args, k)) by { reveal(ready); }
        edges_to(args, g0, senders@, r0, d0, k, downstream_sends@);
        from_bare(args, sources@, row, k);
    }
at loop 1 end:
    proof {
        assert(filters@ == h0.insert(k, filters@[k]));
        
        without(g0, forwarded(g0, k, forwards(stated(args, k)->0), senders@), k);
        step(args, g0, adjacency_matrix.g(), senders@, r0, receivers@, h0, filters@[k], 8, 12, d0, k);
        
        let e = d.union(done_map(lst, it.index() + 1));
        assert forall|x: Str| d0.insert(k).contains(x) == e.contains(x) by { grow_map(lst, it.index(), x); }
        same_ready(args, adjacency_matrix.g(), senders@, receivers@, d0.insert(k), e); same_running(args, filters@, 8, 12, d0.insert(k), e);
    }
at loop 1 after:
    proof {
        let e = d.union(done_map(lst, lst.len() as int));
        assert forall|x: Str| stated(args, x) is Some implies e.contains(x) == d.union(of_kind(10)).contains(x) by { assert(stated(args, x) is Some && kind_of(x) == 10 ==> stated(args, x) == stated_10(args, x)); all_map(lst, cfg_map@, x); }
        same_ready(args, adjacency_matrix.g(), senders@, receivers@, e, d.union(of_kind(10))); same_running(args, filters@, 8, 12, e, d.union(of_kind(10)));
    }
@*/
/*@ part src/bin/cernan.rs main `if let Some(cfg_map) = mem::replace(&mut args.flush_boundary_filters, None) { $*b }`
sig:
    pub fn start_flush_boundary_filters(cfg_map: HashMap<String, FlushBoundaryFilterConfig>, receivers: &mut NameMap<Receiver>, adjacency_matrix: &mut Adjacency<Sender>, senders: &NameMap<Sender>, filters: &mut NameMap<ThreadHandle>, Ghost(args): Ghost<Args>, Ghost(d): Ghost<ISet<Str>>)
rw `for config in cfg_map.values() {` => `let es = held(&cfg_map); let ghost lst = choose|z: Seq<(Str, FlushBoundaryFilterConfig)>| #[trigger] lists(z, cfg_map@) && es@.len() == z.len() && forall|i: int| 0 <= i < z.len() ==> *(#[trigger] es@[i]) == z[i].1; for config in es {`
rw `populate_forwards(None, $*a)` => `populate_forwards(None, &mut none, $*a)`
rw `&mut adjacency_matrix` => `adjacency_matrix`
rw `&senders` => `senders`
rw `let sources = adjacency_matrix.filter_nodes($*p, |&($k, $o)| $*b, );` => `let f = |q: &(&String, &Option<Sender>)| -> (r: bool) ensures r == (q.1 is None) { let ($k, $o) = *q; $*b }; let ghost row = edges_of(adjacency_matrix.g(), k); let sources = adjacency_matrix.filter_nodes($*p, f); proof { bare_edges(sources@, row, f); }`
spec:
    requires well_named(args), args.flush_boundary_filters == Some(cfg_map), ready(args, old(adjacency_matrix).g(), senders@, old(receivers)@, d), running(args, old(filters)@, 8, 12, d), d.disjoint(of_kind(11))
    ensures ready(args, final(adjacency_matrix).g(), senders@, final(receivers)@, d.union(of_kind(11))), running(args, final(filters)@, 8, 12, d.union(of_kind(11)))
at fn-start:
    let mut none = NameSet::new();
loop 1 for iter it:
    invariant
        well_named(args), d.disjoint(of_kind(11)), lists(lst, cfg_map@), lst.len() == it.seq().len(), forall|i: int| 0 <= i < lst.len() ==> *(#[trigger] it.seq()[i]) == lst[i].1, args.flush_boundary_filters == Some(cfg_map),
        ready(args, adjacency_matrix.g(), senders@, receivers@, d.union(done_map(lst, it.index()))), running(args, filters@, 8, 12, d.union(done_map(lst, it.index()))),
at loop 1 before:
    proof { same_ready(args, adjacency_matrix.g(), senders@, receivers@, d, d.union(done_map(lst, 0))); same_running(args, filters@, 8, 12, d, d.union(done_map(lst, 0))); }
at loop 1 start:
    let ghost k = lst[it.index()].0;
    let ghost (g0, r0, h0) = (adjacency_matrix.g(), receivers@, filters@);
    let ghost d0 = d.union(done_map(lst, it.index()));
    proof {
        assert(*it.seq()[it.index()] == lst[it.index()].1); assert(cfg_map@.contains_key(k) && cfg_map@[k] == *config && named(config.config_path, k));
        assert(kind_of(k) == 11 && of_kind(11).contains(k));
        assert(stated(args, k) == stated_11(args, k));
        none_twice(lst, it.index());
        assert(!d0.contains(k));
    }
at before `filters.insert(`:
    proof {
        assert(recv.q() == queue_of(args, k)) by { reveal(ready); }
        edges_to(args, g0, senders@, r0, d0, k, downstream_sends@);
        from_bare(args, sources@, row, k);
    }
at loop 1 end:
    proof {
        assert(filters@ == h0.insert(k, filters@[k]));
        
        without(g0, forwarded(g0, k, forwards(stated(args, k)->0), senders@), k);
        step(args, g0, adjacency_matrix.g(), senders@, r0, receivers@, h0, filters@[k], 8, 12, d0, k);
        
        let e = d.union(done_map(lst, it.index() + 1));
        assert forall|x: Str| d0.insert(k).contains(x) == e.contains(x) by { grow_map(lst, it.index(), x); }
        same_ready(args, adjacency_matrix.g(), senders@, receivers@, d0.insert(k), e); same_running(args, filters@, 8, 12, d0.insert(k), e);
    }
at loop 1 after:
    proof {
        let e = d.union(done_map(lst, lst.len() as int));
        assert forall|x: Str| stated(args, x) is Some implies e.contains(x) == d.union(of_kind(11)).contains(x) by { assert(stated(args, x) is Some && kind_of(x) == 11 ==> stated(args, x) == stated_11(args, x)); all_map(lst, cfg_map@, x); }
        same_ready(args, adjacency_matrix.g(), senders@, receivers@, e, d.union(of_kind(11))); same_running(args, filters@, 8, 12, e, d.union(of_kind(11)));
    }
@*/
/*@ part src/bin/cernan.rs main `if let Some(cfg_map) = mem::replace(&mut args.native_server_config, None) { $*b }`
sig:
    pub fn start_native_server_config(cfg_map: HashMap<String, NativeServerConfig>, adjacency_matrix: &mut Adjacency<Sender>, senders: &NameMap<Sender>, flush_sends: &mut NameSet, sources: &mut NameMap<ThreadHandle>, Ghost(args): Ghost<Args>, Ghost(r): Ghost<Map<Str, Receiver>>, Ghost(d): Ghost<ISet<Str>>)
rw `for ($p, $c) in cfg_map {` => `let es = all(cfg_map); let ghost lst = flat(es@); for q in es { let ($p, $c) = q;`
rw `populate_forwards(Some(&mut flush_sends), $*a)` => `populate_forwards(Some(()), flush_sends, $*a)`
rw `populate_forwards(None, $*a)` => `populate_forwards(None, flush_sends, $*a)`
rw `&mut adjacency_matrix` => `adjacency_matrix`
rw `&senders` => `senders`
rw `config.into()` => `tcp_of_native(config)`
spec:
    requires well_named(args), args.native_server_config == Some(cfg_map), ready(args, old(adjacency_matrix).g(), senders@, r, d), running(args, old(sources)@, 12, 18, d), d.disjoint(of_kind(12)), pulsed(args, old(flush_sends)@, d)
    ensures ready(args, final(adjacency_matrix).g(), senders@, r, d.union(of_kind(12))), running(args, final(sources)@, 12, 18, d.union(of_kind(12))), pulsed(args, final(flush_sends)@, d.union(of_kind(12)))
loop 1 for iter it:
    invariant
        well_named(args), d.disjoint(of_kind(12)), lst == flat(it.seq()), lists(lst, args.native_server_config->0@), args.native_server_config is Some,
        ready(args, adjacency_matrix.g(), senders@, r, d.union(done_map(lst, it.index()))), running(args, sources@, 12, 18, d.union(done_map(lst, it.index()))),
        pulsed(args, flush_sends@, d.union(done_map(lst, it.index()))),
at loop 1 before:
    proof { same_ready(args, adjacency_matrix.g(), senders@, r, d, d.union(done_map(lst, 0))); same_running(args, sources@, 12, 18, d, d.union(done_map(lst, 0))); same_pulsed(args, flush_sends@, d, d.union(done_map(lst, 0))); }
at loop 1 start:
    let ghost k = lst[it.index()].0;
    let ghost (g0, r0, h0) = (adjacency_matrix.g(), r, sources@);
    let ghost f0 = flush_sends@;
    let ghost d0 = d.union(done_map(lst, it.index()));
    proof {
        assert(lst[it.index()] == (it.seq()[it.index()].0@, it.seq()[it.index()].1)); assert(args.native_server_config->0@.contains_key(k) && args.native_server_config->0@[k] == it.seq()[it.index()].1);
        assert(kind_of(k) == 12 && of_kind(12).contains(k));
        assert(stated(args, k) == stated_12(args, k));
        none_twice(lst, it.index());
        assert(!d0.contains(k));
    }
at before `sources.insert(`:
    proof { edges_to(args, g0, senders@, r, d0, k, native_server_send@); }
at loop 1 end:
    proof {
        assert(sources@ == h0.insert(k, sources@[k]));
        
        without(g0, forwarded(g0, k, forwards(stated(args, k)->0), senders@), k);
        step(args, g0, adjacency_matrix.g(), senders@, r0, r, h0, sources@[k], 12, 18, d0, k);
        more_pulses(args, f0, flush_sends@, d0, k);
        let e = d.union(done_map(lst, it.index() + 1));
        assert forall|x: Str| d0.insert(k).contains(x) == e.contains(x) by { grow_map(lst, it.index(), x); }
        same_ready(args, adjacency_matrix.g(), senders@, r, d0.insert(k), e); same_running(args, sources@, 12, 18, d0.insert(k), e); same_pulsed(args, flush_sends@, d0.insert(k), e);
    }
at loop 1 after:
    proof {
        let e = d.union(done_map(lst, lst.len() as int));
        assert forall|x: Str| stated(args, x) is Some implies e.contains(x) == d.union(of_kind(12)).contains(x) by { assert(stated(args, x) is Some && kind_of(x) == 12 ==> stated(args, x) == stated_12(args, x)); all_map(lst, args.native_server_config->0@, x); }
        same_ready(args, adjacency_matrix.g(), senders@, r, e, d.union(of_kind(12))); same_running(args, sources@, 12, 18, e, d.union(of_kind(12))); same_pulsed(args, flush_sends@, e, d.union(of_kind(12)));
    }
@*/
/*@ part src/bin/cernan.rs main `if let Some(cfg_map) = mem::replace(&mut args.statsds, None) { $*b }`
sig:
    pub fn start_statsds(cfg_map: HashMap<String, StatsdConfig>, adjacency_matrix: &mut Adjacency<Sender>, senders: &NameMap<Sender>, flush_sends: &mut NameSet, sources: &mut NameMap<ThreadHandle>, Ghost(args): Ghost<Args>, Ghost(r): Ghost<Map<Str, Receiver>>, Ghost(d): Ghost<ISet<Str>>)
rw `for ($p, $c) in cfg_map {` => `let es = all(cfg_map); let ghost lst = flat(es@); for q in es { let ($p, $c) = q;`
rw `populate_forwards(Some(&mut flush_sends), $*a)` => `populate_forwards(Some(()), flush_sends, $*a)`
rw `populate_forwards(None, $*a)` => `populate_forwards(None, flush_sends, $*a)`
rw `&mut adjacency_matrix` => `adjacency_matrix`
rw `&senders` => `senders`
spec:
    requires well_named(args), args.statsds == Some(cfg_map), ready(args, old(adjacency_matrix).g(), senders@, r, d), running(args, old(sources)@, 12, 18, d), d.disjoint(of_kind(14)), pulsed(args, old(flush_sends)@, d)
    ensures ready(args, final(adjacency_matrix).g(), senders@, r, d.union(of_kind(14))), running(args, final(sources)@, 12, 18, d.union(of_kind(14))), pulsed(args, final(flush_sends)@, d.union(of_kind(14)))
loop 1 for iter it:
    invariant
        well_named(args), d.disjoint(of_kind(14)), lst == flat(it.seq()), lists(lst, args.statsds->0@), args.statsds is Some,
        ready(args, adjacency_matrix.g(), senders@, r, d.union(done_map(lst, it.index()))), running(args, sources@, 12, 18, d.union(done_map(lst, it.index()))),
        pulsed(args, flush_sends@, d.union(done_map(lst, it.index()))),
at loop 1 before:
    proof { same_ready(args, adjacency_matrix.g(), senders@, r, d, d.union(done_map(lst, 0))); same_running(args, sources@, 12, 18, d, d.union(done_map(lst, 0))); same_pulsed(args, flush_sends@, d, d.union(done_map(lst, 0))); }
at loop 1 start:
    let ghost k = lst[it.index()].0;
    let ghost (g0, r0, h0) = (adjacency_matrix.g(), r, sources@);
    let ghost f0 = flush_sends@;
    let ghost d0 = d.union(done_map(lst, it.index()));
    proof {
        assert(lst[it.index()] == (it.seq()[it.index()].0@, it.seq()[it.index()].1)); assert(args.statsds->0@.contains_key(k) && args.statsds->0@[k] == it.seq()[it.index()].1);
        assert(kind_of(k) == 14 && of_kind(14).contains(k));
        assert(stated(args, k) == stated_14(args, k));
        none_twice(lst, it.index());
        assert(!d0.contains(k));
    }
at before `sources.insert(`:
    proof { edges_to(args, g0, senders@, r, d0, k, statsd_sends@); }
at loop 1 end:
    proof {
        assert(sources@ == h0.insert(k, sources@[k]));
        
        without(g0, forwarded(g0, k, forwards(stated(args, k)->0), senders@), k);
        step(args, g0, adjacency_matrix.g(), senders@, r0, r, h0, sources@[k], 12, 18, d0, k);
        more_pulses(args, f0, flush_sends@, d0, k);
        let e = d.union(done_map(lst, it.index() + 1));
        assert forall|x: Str| d0.insert(k).contains(x) == e.contains(x) by { grow_map(lst, it.index(), x); }
        same_ready(args, adjacency_matrix.g(), senders@, r, d0.insert(k), e); same_running(args, sources@, 12, 18, d0.insert(k), e); same_pulsed(args, flush_sends@, d0.insert(k), e);
    }
at loop 1 after:
    proof {
        let e = d.union(done_map(lst, lst.len() as int));
        assert forall|x: Str| stated(args, x) is Some implies e.contains(x) == d.union(of_kind(14)).contains(x) by { assert(stated(args, x) is Some && kind_of(x) == 14 ==> stated(args, x) == stated_14(args, x)); all_map(lst, args.statsds->0@, x); }
        same_ready(args, adjacency_matrix.g(), senders@, r, e, d.union(of_kind(14))); same_running(args, sources@, 12, 18, e, d.union(of_kind(14))); same_pulsed(args, flush_sends@, e, d.union(of_kind(14)));
    }
@*/
/*@ part src/bin/cernan.rs main `if let Some(cfg_map) = mem::replace(&mut args.graphites, None) { $*b }`
sig:
    pub fn start_graphites(cfg_map: HashMap<String, GraphiteConfig>, adjacency_matrix: &mut Adjacency<Sender>, senders: &NameMap<Sender>, flush_sends: &mut NameSet, sources: &mut NameMap<ThreadHandle>, Ghost(args): Ghost<Args>, Ghost(r): Ghost<Map<Str, Receiver>>, Ghost(d): Ghost<ISet<Str>>)
rw `for ($p, $c) in cfg_map {` => `let es = all(cfg_map); let ghost lst = flat(es@); for q in es { let ($p, $c) = q;`
rw `populate_forwards(Some(&mut flush_sends), $*a)` => `populate_forwards(Some(()), flush_sends, $*a)`
rw `populate_forwards(None, $*a)` => `populate_forwards(None, flush_sends, $*a)`
rw `&mut adjacency_matrix` => `adjacency_matrix`
rw `&senders` => `senders`
rw `config.into()` => `tcp_of_graphite(config)`
spec:
    requires well_named(args), args.graphites == Some(cfg_map), ready(args, old(adjacency_matrix).g(), senders@, r, d), running(args, old(sources)@, 12, 18, d), d.disjoint(of_kind(15)), pulsed(args, old(flush_sends)@, d)
    ensures ready(args, final(adjacency_matrix).g(), senders@, r, d.union(of_kind(15))), running(args, final(sources)@, 12, 18, d.union(of_kind(15))), pulsed(args, final(flush_sends)@, d.union(of_kind(15)))
loop 1 for iter it:
    invariant
        well_named(args), d.disjoint(of_kind(15)), lst == flat(it.seq()), lists(lst, args.graphites->0@), args.graphites is Some,
        ready(args, adjacency_matrix.g(), senders@, r, d.union(done_map(lst, it.index()))), running(args, sources@, 12, 18, d.union(done_map(lst, it.index()))),
        pulsed(args, flush_sends@, d.union(done_map(lst, it.index()))),
at loop 1 before:
    proof { same_ready(args, adjacency_matrix.g(), senders@, r, d, d.union(done_map(lst, 0))); same_running(args, sources@, 12, 18, d, d.union(done_map(lst, 0))); same_pulsed(args, flush_sends@, d, d.union(done_map(lst, 0))); }
at loop 1 start:
    let ghost k = lst[it.index()].0;
    let ghost (g0, r0, h0) = (adjacency_matrix.g(), r, sources@);
    let ghost f0 = flush_sends@;
    let ghost d0 = d.union(done_map(lst, it.index()));
    proof {
        assert(lst[it.index()] == (it.seq()[it.index()].0@, it.seq()[it.index()].1)); assert(args.graphites->0@.contains_key(k) && args.graphites->0@[k] == it.seq()[it.index()].1);
        assert(kind_of(k) == 15 && of_kind(15).contains(k));
        assert(stated(args, k) == stated_15(args, k));
        none_twice(lst, it.index());
        assert(!d0.contains(k));
    }
at before `sources.insert(`:
    proof { edges_to(args, g0, senders@, r, d0, k, graphite_sends@); }
at loop 1 end:
    proof {
        assert(sources@ == h0.insert(k, sources@[k]));
        
        without(g0, forwarded(g0, k, forwards(stated(args, k)->0), senders@), k);
        step(args, g0, adjacency_matrix.g(), senders@, r0, r, h0, sources@[k], 12, 18, d0, k);
        more_pulses(args, f0, flush_sends@, d0, k);
        let e = d.union(done_map(lst, it.index() + 1));
        assert forall|x: Str| d0.insert(k).contains(x) == e.contains(x) by { grow_map(lst, it.index(), x); }
        same_ready(args, adjacency_matrix.g(), senders@, r, d0.insert(k), e); same_running(args, sources@, 12, 18, d0.insert(k), e); same_pulsed(args, flush_sends@, d0.insert(k), e);
    }
at loop 1 after:
    proof {
        let e = d.union(done_map(lst, lst.len() as int));
        assert forall|x: Str| stated(args, x) is Some implies e.contains(x) == d.union(of_kind(15)).contains(x) by { assert(stated(args, x) is Some && kind_of(x) == 15 ==> stated(args, x) == stated_15(args, x)); all_map(lst, args.graphites->0@, x); }
        same_ready(args, adjacency_matrix.g(), senders@, r, e, d.union(of_kind(15))); same_running(args, sources@, 12, 18, e, d.union(of_kind(15))); same_pulsed(args, flush_sends@, e, d.union(of_kind(15)));
    }
@*/
/*@ part src/bin/cernan.rs main `if let Some(cfg_map) = mem::replace(&mut args.avros, None) { $*b }`
sig:
    pub fn start_avros(cfg_map: HashMap<String, TCPConfig>, adjacency_matrix: &mut Adjacency<Sender>, senders: &NameMap<Sender>, flush_sends: &mut NameSet, sources: &mut NameMap<ThreadHandle>, Ghost(args): Ghost<Args>, Ghost(r): Ghost<Map<Str, Receiver>>, Ghost(d): Ghost<ISet<Str>>)
rw `for ($p, $c) in cfg_map {` => `let es = all(cfg_map); let ghost lst = flat(es@); for q in es { let ($p, $c) = q;`
rw `populate_forwards(Some(&mut flush_sends), $*a)` => `populate_forwards(Some(()), flush_sends, $*a)`
rw `populate_forwards(None, $*a)` => `populate_forwards(None, flush_sends, $*a)`
rw `&mut adjacency_matrix` => `adjacency_matrix`
rw `&senders` => `senders`
spec:
    requires well_named(args), args.avros == Some(cfg_map), ready(args, old(adjacency_matrix).g(), senders@, r, d), running(args, old(sources)@, 12, 18, d), d.disjoint(of_kind(16)), pulsed(args, old(flush_sends)@, d)
    ensures ready(args, final(adjacency_matrix).g(), senders@, r, d.union(of_kind(16))), running(args, final(sources)@, 12, 18, d.union(of_kind(16))), pulsed(args, final(flush_sends)@, d.union(of_kind(16)))
loop 1 for iter it:
    invariant
        well_named(args), d.disjoint(of_kind(16)), lst == flat(it.seq()), lists(lst, args.avros->0@), args.avros is Some,
        ready(args, adjacency_matrix.g(), senders@, r, d.union(done_map(lst, it.index()))), running(args, sources@, 12, 18, d.union(done_map(lst, it.index()))),
        pulsed(args, flush_sends@, d.union(done_map(lst, it.index()))),
at loop 1 before:
    proof { same_ready(args, adjacency_matrix.g(), senders@, r, d, d.union(done_map(lst, 0))); same_running(args, sources@, 12, 18, d, d.union(done_map(lst, 0))); same_pulsed(args, flush_sends@, d, d.union(done_map(lst, 0))); }
at loop 1 start:
    let ghost k = lst[it.index()].0;
    let ghost (g0, r0, h0) = (adjacency_matrix.g(), r, sources@);
    let ghost f0 = flush_sends@;
    let ghost d0 = d.union(done_map(lst, it.index()));
    proof {
        assert(lst[it.index()] == (it.seq()[it.index()].0@, it.seq()[it.index()].1)); assert(args.avros->0@.contains_key(k) && args.avros->0@[k] == it.seq()[it.index()].1);
        assert(kind_of(k) == 16 && of_kind(16).contains(k));
        assert(stated(args, k) == stated_16(args, k));
        none_twice(lst, it.index());
        assert(!d0.contains(k));
    }
at before `sources.insert(`:
    proof { edges_to(args, g0, senders@, r, d0, k, avro_sends@); }
at loop 1 end:
    proof {
        assert(sources@ == h0.insert(k, sources@[k]));
        
        without(g0, forwarded(g0, k, forwards(stated(args, k)->0), senders@), k);
        step(args, g0, adjacency_matrix.g(), senders@, r0, r, h0, sources@[k], 12, 18, d0, k);
        more_pulses(args, f0, flush_sends@, d0, k);
        let e = d.union(done_map(lst, it.index() + 1));
        assert forall|x: Str| d0.insert(k).contains(x) == e.contains(x) by { grow_map(lst, it.index(), x); }
        same_ready(args, adjacency_matrix.g(), senders@, r, d0.insert(k), e); same_running(args, sources@, 12, 18, d0.insert(k), e); same_pulsed(args, flush_sends@, d0.insert(k), e);
    }
at loop 1 after:
    proof {
        let e = d.union(done_map(lst, lst.len() as int));
        assert forall|x: Str| stated(args, x) is Some implies e.contains(x) == d.union(of_kind(16)).contains(x) by { assert(stated(args, x) is Some && kind_of(x) == 16 ==> stated(args, x) == stated_16(args, x)); all_map(lst, args.avros->0@, x); }
        same_ready(args, adjacency_matrix.g(), senders@, r, e, d.union(of_kind(16))); same_running(args, sources@, 12, 18, e, d.union(of_kind(16))); same_pulsed(args, flush_sends@, e, d.union(of_kind(16)));
    }
@*/
/*@ part src/bin/cernan.rs main `if let Some(cfg) = mem::replace(&mut args.files, None) { $*b }`
sig:
    pub fn start_files(cfg: Vec<FileServerConfig>, adjacency_matrix: &mut Adjacency<Sender>, senders: &NameMap<Sender>, flush_sends: &mut NameSet, sources: &mut NameMap<ThreadHandle>, Ghost(args): Ghost<Args>, Ghost(r): Ghost<Map<Str, Receiver>>, Ghost(d): Ghost<ISet<Str>>)
rw `for config in cfg {` => `let ghost lst = cfg@; for config in cfg {`
rw `populate_forwards(Some(&mut flush_sends), $*a)` => `populate_forwards(Some(()), flush_sends, $*a)`
rw `populate_forwards(None, $*a)` => `populate_forwards(None, flush_sends, $*a)`
rw `&mut adjacency_matrix` => `adjacency_matrix`
rw `&senders` => `senders`
spec:
    requires well_named(args), args.files == Some(cfg), ready(args, old(adjacency_matrix).g(), senders@, r, d), running(args, old(sources)@, 12, 18, d), d.disjoint(of_kind(17)), pulsed(args, old(flush_sends)@, d)
    ensures ready(args, final(adjacency_matrix).g(), senders@, r, d.union(of_kind(17))), running(args, final(sources)@, 12, 18, d.union(of_kind(17))), pulsed(args, final(flush_sends)@, d.union(of_kind(17)))
loop 1 for iter it:
    invariant
        well_named(args), d.disjoint(of_kind(17)), lst == it.seq(), args.files->0@ == lst, args.files is Some,
        ready(args, adjacency_matrix.g(), senders@, r, d.union(done_files(lst, it.index()))), running(args, sources@, 12, 18, d.union(done_files(lst, it.index()))),
        pulsed(args, flush_sends@, d.union(done_files(lst, it.index()))),
at loop 1 before:
    proof { same_ready(args, adjacency_matrix.g(), senders@, r, d, d.union(done_files(lst, 0))); same_running(args, sources@, 12, 18, d, d.union(done_files(lst, 0))); same_pulsed(args, flush_sends@, d, d.union(done_files(lst, 0))); }
at loop 1 start:
    let ghost k = config.config_path->0@;
    let ghost (g0, r0, h0) = (adjacency_matrix.g(), r, sources@);
    let ghost f0 = flush_sends@;
    let ghost d0 = d.union(done_files(lst, it.index()));
    proof {
        assert(config == lst[it.index()]); assert(named(lst[it.index()].config_path, k)); pick_files(args, it.index());
        assert(kind_of(k) == 17 && of_kind(17).contains(k));
        assert(stated(args, k) == stated_17(args, k));
        
        assert(!d0.contains(k));
    }
at before `sources.insert(`:
    proof { edges_to(args, g0, senders@, r, d0, k, fp_sends@); }
at loop 1 end:
    proof {
        assert(sources@ == h0.insert(k, sources@[k]));
        
        without(g0, forwarded(g0, k, forwards(stated(args, k)->0), senders@), k);
        step(args, g0, adjacency_matrix.g(), senders@, r0, r, h0, sources@[k], 12, 18, d0, k);
        more_pulses(args, f0, flush_sends@, d0, k);
        let e = d.union(done_files(lst, it.index() + 1));
        assert forall|x: Str| d0.insert(k).contains(x) == e.contains(x) by { if named(lst[it.index()].config_path, x) { assert(done_files(lst, it.index() + 1).contains(x)); } }
        same_ready(args, adjacency_matrix.g(), senders@, r, d0.insert(k), e); same_running(args, sources@, 12, 18, d0.insert(k), e); same_pulsed(args, flush_sends@, d0.insert(k), e);
    }
at loop 1 after:
    proof {
        let e = d.union(done_files(lst, lst.len() as int));
        assert forall|x: Str| stated(args, x) is Some implies e.contains(x) == d.union(of_kind(17)).contains(x) by { if kind_of(x) == 17 { assert(stated(args, x) == stated_17(args, x)); } }
        same_ready(args, adjacency_matrix.g(), senders@, r, e, d.union(of_kind(17))); same_running(args, sources@, 12, 18, e, d.union(of_kind(17))); same_pulsed(args, flush_sends@, e, d.union(of_kind(17)));
    }
@*/
/*@ part src/bin/cernan.rs main `{ let internal_config = &args.internal; $*b }`
sig:
    pub fn lay_internal(internal_config: &InternalConfig, args: &Args, config_topology: &mut NameMap<Vec<String>>, adjacency_matrix: &mut Adjacency<Sender>, Ghost(s): Ghost<Map<Str, Sender>>, Ghost(r): Ghost<Map<Str, Receiver>>, Ghost(d): Ghost<ISet<Str>>)
spec:
    requires well_named(*args), args.internal == *internal_config, laid(*args, old(config_topology)@, old(adjacency_matrix).g(), s, r, d), d.disjoint(of_kind(13))
    ensures laid(*args, final(config_topology)@, final(adjacency_matrix).g(), s, r, d.union(of_kind(13)))
at fn-start:
    let ghost k = internal_config.config_path->0@;
    proof { assert(of_kind(13).contains(k)); assert(stated(*args, k) == stated_13(*args, k)); }
at fn-end:
    proof {
        let f = config_topology@[k];
        lay(*args, old(config_topology)@, old(adjacency_matrix).g(), s, r, d, k, f);
        assert(config_topology@ == old(config_topology)@.insert(k, f));
        assert forall|x: Str| stated(*args, x) is Some implies d.insert(k).contains(x) == d.union(of_kind(13)).contains(x) by { if kind_of(x) == 13 { assert(stated(*args, x) == stated_13(*args, x)); } }
        same_laid(*args, config_topology@, adjacency_matrix.g(), s, r, d.insert(k), d.union(of_kind(13)));
    }
@*/
// ---- the whole
pub open spec fn jobs_of(h: Map<Str, ThreadHandle>, js: Set<Job>) -> bool { forall|k: Str| #[trigger] h.contains_key(k) ==> js.contains(h[k].job()) }
pub proof fn ready_laid(args: Args, t: Topo, g: Graph<Sender>, s: Map<Str, Sender>, r: Map<Str, Receiver>)
    requires laid(args, t, g, s, r, ISet::full())
    ensures ready(args, g, s, r, ISet::empty())
{
    reveal(laid); reveal(ready);
    let d = ISet::<Str>::full();
    assert forall|a: Str, b: Str| stated(args, a) is Some implies (#[trigger] edges_of(g, a).contains_key(b) <==> feeds(args, a, b) || feeds(args, b, a)) by { assert(edges_of(g, a).contains_key(b) <==> (d.contains(a) && feeds(args, a, b)) || (d.contains(b) && feeds(args, b, a))); }
}
/// nobody is configured to forward to it
pub open spec fn unfed_by_any(args: Args, n: Str) -> bool { stated(args, n) is Some && reads(n) && forall|a: Str| !#[trigger] feeds(args, a, n) }
/// every component was started as configured, told to end, and waited for: the sources first, then those nothing forwards to
pub open spec fn ended(w: World, args: Args) -> bool {
    &&& forall|k: Str| #[trigger] stated(args, k) is Some && !reads(k) ==> exists|j: Job| right(args, k, j) && w.stopped().contains(j)
    &&& forall|k: Str| #[trigger] stated(args, k) is Some && reads(k) ==> exists|j: Job| right(args, k, j) && w.joined().contains(j)
    &&& exactly_queues(args, w.told(), |n: Str| unfed_by_any(args, n))
    &&& w.timer() is Some && exactly_queues(args, w.timer()->0, |b: Str| exists|a: Str| !reads(a) && #[trigger] feeds(args, a, b))
    &&& w.clock()
}
/*@ fn src/bin/cernan.rs join_all
sig:
    pub fn join_all(workers: HashMap<String, ThreadHandle>, w: &mut World)
rw `for ($p, $c) in workers {` => `let es = all(workers); let ghost lst = flat(es@); for q in es { let ($p, $c) = q;`
rw `worker.join()` => `worker.join(w)`
spec:
    requires old(w).told_any()
    ensures jobs_of(workers@, final(w).joined()), forall|j: Job| old(w).joined().contains(j) ==> final(w).joined().contains(j),
        final(w).told_any(), final(w).signalled() == old(w).signalled(), final(w).told() == old(w).told(), final(w).stopped() == old(w).stopped(), final(w).timer() == old(w).timer(), final(w).clock() == old(w).clock()
loop 1 for iter it:
    invariant
        lst == flat(it.seq()), forall|j: Job| old(w).joined().contains(j) ==> w.joined().contains(j),
        w.told_any(), w.signalled() == old(w).signalled(), w.told() == old(w).told(), w.stopped() == old(w).stopped(), w.timer() == old(w).timer(), w.clock() == old(w).clock(),
        forall|i: int| 0 <= i < it.index() ==> w.joined().contains((#[trigger] lst[i]).1.job()),
at loop 1 start:
    proof { assert(lst[it.index()] == (it.seq()[it.index()].0@, it.seq()[it.index()].1)); }
at loop 1 after:
    proof { assert forall|k: Str| #[trigger] workers@.contains_key(k) implies w.joined().contains(workers@[k].job()) by { let i = choose|i: int| 0 <= i < lst.len() && (#[trigger] lst[i]).0 == k; assert(lst[i].1 == workers@[k]); } }
@*/

/// a kind nothing is configured of
pub proof fn lay_skip(args: Args, t: Topo, g: Graph<Sender>, s: Map<Str, Sender>, r: Map<Str, Receiver>, d: ISet<Str>, n: int, some: bool)
    requires if some { laid(args, t, g, s, r, d.union(of_kind(n))) } else { laid(args, t, g, s, r, d) && none_of(args, n) }
    ensures laid(args, t, g, s, r, d.union(of_kind(n)))
{ if !some { same_laid(args, t, g, s, r, d, d.union(of_kind(n))); } }
pub open spec fn none_of(args: Args, n: int) -> bool { forall|k: Str| kind_of(k) == n ==> #[trigger] stated(args, k) is None }

pub proof fn nothing_0(args: Args) requires args.null is None ensures none_of(args, 0) { }
pub proof fn nothing_1(args: Args) requires args.console is None ensures none_of(args, 1) { }
pub proof fn nothing_2(args: Args) requires args.wavefront is None ensures none_of(args, 2) { }
pub proof fn nothing_3(args: Args) requires args.prometheus is None ensures none_of(args, 3) { }
pub proof fn nothing_4(args: Args) requires args.influxdb is None ensures none_of(args, 4) { }
pub proof fn nothing_5(args: Args) requires args.native_sink_config is None ensures none_of(args, 5) { }
pub proof fn nothing_6(args: Args) requires args.elasticsearch is None ensures none_of(args, 6) { }
pub proof fn nothing_7(args: Args) requires args.kafkas is None ensures none_of(args, 7) { }
pub proof fn nothing_8(args: Args) requires args.programmable_filters is None ensures none_of(args, 8) { }
pub proof fn nothing_9(args: Args) requires args.delay_filters is None ensures none_of(args, 9) { }
pub proof fn nothing_10(args: Args) requires args.json_encode_filters is None ensures none_of(args, 10) { }
pub proof fn nothing_11(args: Args) requires args.flush_boundary_filters is None ensures none_of(args, 11) { }
pub proof fn nothing_12(args: Args) requires args.native_server_config is None ensures none_of(args, 12) { }
pub proof fn nothing_14(args: Args) requires args.statsds is None ensures none_of(args, 14) { }
pub proof fn nothing_15(args: Args) requires args.graphites is None ensures none_of(args, 15) { }
pub proof fn nothing_16(args: Args) requires args.avros is None ensures none_of(args, 16) { }
pub proof fn nothing_17(args: Args) requires args.files is None ensures none_of(args, 17) { }
/// the kinds before `n`
pub open spec fn kinds(n: int) -> ISet<Str> { ISet::new(|k: Str| 0 <= kind_of(k) < n) }
/// the kinds before `n` are started, the others are to be
#[verifier::opaque]
pub open spec fn at_work(args: Args, g: Graph<Sender>, s: Map<Str, Sender>, r: Map<Str, Receiver>, h1: Map<Str, ThreadHandle>, h2: Map<Str, ThreadHandle>, h3: Map<Str, ThreadHandle>, f: Set<Str>, n: int) -> bool {
    ready(args, g, s, r, kinds(n)) && running(args, h1, 0, 8, kinds(n)) && running(args, h2, 8, 12, kinds(n)) && running(args, h3, 12, 18, kinds(n)) && pulsed(args, f, kinds(n))
}
pub proof fn next_kind(args: Args, g: Graph<Sender>, s: Map<Str, Sender>, r: Map<Str, Receiver>, h1: Map<Str, ThreadHandle>, h2: Map<Str, ThreadHandle>, h3: Map<Str, ThreadHandle>, f: Set<Str>, n: int)
    requires at_work(args, g, s, r, h1, h2, h3, f, n)
    ensures ready(args, g, s, r, kinds(n)), running(args, h1, 0, 8, kinds(n)), running(args, h2, 8, 12, kinds(n)), running(args, h3, 12, 18, kinds(n)), pulsed(args, f, kinds(n)), kinds(n).disjoint(of_kind(n))
{ reveal(at_work); }
pub proof fn start_skip(args: Args, g: Graph<Sender>, s: Map<Str, Sender>, r: Map<Str, Receiver>, h1: Map<Str, ThreadHandle>, h2: Map<Str, ThreadHandle>, h3: Map<Str, ThreadHandle>, f: Set<Str>, n: int, was: bool)
    requires
        0 <= n < 18,
        if was { ready(args, g, s, r, kinds(n).union(of_kind(n))) } else { ready(args, g, s, r, kinds(n)) && none_of(args, n) },
        running(args, h1, 0, 8, if was && n < 8 { kinds(n).union(of_kind(n)) } else { kinds(n) }),
        running(args, h2, 8, 12, if was && 8 <= n < 12 { kinds(n).union(of_kind(n)) } else { kinds(n) }),
        running(args, h3, 12, 18, if was && n >= 12 { kinds(n).union(of_kind(n)) } else { kinds(n) }),
        pulsed(args, f, if was && n >= 12 { kinds(n).union(of_kind(n)) } else { kinds(n) }),
    ensures at_work(args, g, s, r, h1, h2, h3, f, n + 1)
{
    reveal(at_work);
    let d = kinds(n);
    let e = d.union(of_kind(n));
    if !was { same_ready(args, g, s, r, d, e); }
    if !(was && n < 8) { same_running(args, h1, 0, 8, d, e); }
    if !(was && 8 <= n < 12) { same_running(args, h2, 8, 12, d, e); }
    if !(was && n >= 12) { same_running(args, h3, 12, 18, d, e); same_pulsed(args, f, d, e); }
    let e2 = kinds(n + 1);
    assert forall|k: Str| #[trigger] e.contains(k) == e2.contains(k) by { }
    same_ready(args, g, s, r, e, e2); same_running(args, h1, 0, 8, e, e2); same_running(args, h2, 8, 12, e, e2); same_running(args, h3, 12, 18, e, e2); same_pulsed(args, f, e, e2);
}
/// the internal source, started
pub proof fn internal_started(args: Args, g: Graph<Sender>, g2: Graph<Sender>, s: Map<Str, Sender>, r: Map<Str, Receiver>, h: Map<Str, ThreadHandle>, x: ThreadHandle, f: Set<Str>, f2: Set<Str>, d: ISet<Str>, v: Seq<Sender>)
    requires
        well_named(args), ready(args, g, s, r, d), running(args, h, 12, 18, d), pulsed(args, f, d), d.disjoint(of_kind(13)),
        forall|i: int| 0 <= i < args.internal.forwards@.len() ==> s.contains_key((#[trigger] args.internal.forwards@[i])@),
        listed_metas(v, edges_of(forwarded(g, args.internal.config_path->0@, args.internal.forwards@, s), args.internal.config_path->0@)),
        g2 == forwarded(g, args.internal.config_path->0@, args.internal.forwards@, s).remove(args.internal.config_path->0@),
        f2 == f.union(name_set(args.internal.forwards@)),
        x.job() == (Job { cfg: Cfg::Internal(args.internal), reads: None, from: Seq::empty(), to: queues(v) }),
    ensures
        ready(args, g2, s, r, d.union(of_kind(13))), running(args, h.insert(args.internal.config_path->0@, x), 12, 18, d.union(of_kind(13))), pulsed(args, f2, d.union(of_kind(13))),
{
    let k = args.internal.config_path->0@;
    assert(of_kind(13).contains(k));
    assert(stated(args, k) == stated_13(args, k));
    edges_to(args, g, s, r, d, k, v);
    without(g, forwarded(g, k, args.internal.forwards@, s), k);
    step(args, g, g2, s, r, r, h, x, 12, 18, d, k);
    more_pulses(args, f, f2, d, k);
    let e = d.union(of_kind(13));
    assert forall|x: Str| stated(args, x) is Some implies d.insert(k).contains(x) == e.contains(x) by { if kind_of(x) == 13 { assert(stated(args, x) == stated_13(args, x)); } }
    same_ready(args, g2, s, r, d.insert(k), e);
    same_running(args, h.insert(k, x), 12, 18, d.insert(k), e);
    same_pulsed(args, f2, d.insert(k), e);
}
pub proof fn laid_none(args: Args)
    ensures laid(args, Map::empty(), Map::empty(), Map::empty(), Map::empty(), ISet::empty()), running(args, Map::empty(), 0, 8, ISet::empty()), running(args, Map::empty(), 8, 12, ISet::empty()), running(args, Map::empty(), 12, 18, ISet::empty()), pulsed(args, Set::empty(), ISet::empty())
{ reveal(laid); reveal(running); }
/// the kinds up to `n`
pub open spec fn every() -> ISet<Str> { ISet::new(|k: Str| 0 <= kind_of(k) < 18) }
pub proof fn laid_all(args: Args, t: Topo, g: Graph<Sender>, s: Map<Str, Sender>, r: Map<Str, Receiver>, d: ISet<Str>)
    requires laid(args, t, g, s, r, d), forall|k: Str| #[trigger] d.contains(k) <==> 0 <= kind_of(k) < 18
    ensures laid(args, t, g, s, r, ISet::full()), ready(args, g, s, r, ISet::empty())
{
    assert forall|k: Str| stated(args, k) is Some implies d.contains(k) by { assert(0 <= kind_of(k) < 18); }
    same_laid(args, t, g, s, r, d, ISet::full());
    ready_laid(args, t, g, s, r);
}
/// the destinations of the sources' events
pub proof fn pulses_to(args: Args, g: Graph<Sender>, s: Map<Str, Sender>, r: Map<Str, Receiver>, h1: Map<Str, ThreadHandle>, h2: Map<Str, ThreadHandle>, h3: Map<Str, ThreadHandle>, f: Set<Str>, ds: Seq<&String>, v: Seq<Sender>)
    requires
        started(args, g, s, r, h1, h2, h3, f),
        forall|n: Str| #[trigger] f.contains(n) <==> exists|i: int| 0 <= i < ds.len() && (#[trigger] ds[i])@ == n,
        forall|i: int, j: int| 0 <= i < j < ds.len() ==> (#[trigger] ds[i])@ != (#[trigger] ds[j])@,
        v.len() == ds.len(), forall|i: int| 0 <= i < ds.len() ==> s.contains_key((#[trigger] ds[i])@) && v[i] == s[ds[i]@],
    ensures exactly_queues(args, queues(v), |b: Str| exists|a: Str| !reads(a) && #[trigger] feeds(args, a, b))
{
    reveal(ready); reveal(started);
    let d = every();
    let q = queues(v);
    let p = |b: Str| exists|a: Str| !reads(a) && #[trigger] feeds(args, a, b);
    assert forall|i: int| 0 <= i < q.len() implies #[trigger] q[i] == queue_of(args, ds[i]@) by { assert(s.contains_key(ds[i]@)); }
    assert forall|i: int, j: int| 0 <= i < q.len() && 0 <= j < q.len() && i != j implies q[i] != q[j] by { if i < j { assert(ds[i]@ != ds[j]@); } else { assert(ds[j]@ != ds[i]@); } assert(q[i].name == ds[i]@ && q[j].name == ds[j]@); }
    assert forall|n: Str| #[trigger] p(n) <==> q.contains(queue_of(args, n)) by {
        if p(n) {
            let a = choose|a: Str| !reads(a) && #[trigger] feeds(args, a, n);
            assert(d.contains(a)) by { assert(stated(args, a) is Some); }
            assert(f.contains(n));
            let i = choose|i: int| 0 <= i < ds.len() && (#[trigger] ds[i])@ == n;
            assert(q[i] == queue_of(args, n));
        }
        if q.contains(queue_of(args, n)) {
            let i = choose|i: int| 0 <= i < q.len() && q[i] == queue_of(args, n);
            assert(q[i].name == ds[i]@);
            assert(f.contains(n));
        }
    }
}
/// of the first `i` of the queues, `u` are those nobody forwards to
pub open spec fn from_list(args: Args, lst: Seq<(Str, Sender)>, i: int, q: Queue) -> bool { exists|m: int| 0 <= m < i && q == queue_of(args, (#[trigger] lst[m]).0) && unfed_by_any(args, lst[m].0) }
#[verifier::opaque]
pub open spec fn unfed_among(args: Args, lst: Seq<(Str, Sender)>, i: int, u: Seq<Queue>) -> bool {
    &&& u.no_duplicates()
    &&& forall|j: int| 0 <= j < u.len() ==> from_list(args, lst, i, #[trigger] u[j])
    &&& forall|m: int| 0 <= m < i && unfed_by_any(args, (#[trigger] lst[m]).0) ==> u.contains(queue_of(args, lst[m].0))
}
pub proof fn unfed_step(args: Args, lst: Seq<(Str, Sender)>, i: int, u: Seq<Queue>, u2: Seq<Queue>)
    requires
        unfed_among(args, lst, i, u), 0 <= i < lst.len(),
        forall|a: int, b: int| 0 <= a < lst.len() && 0 <= b < lst.len() && (#[trigger] lst[a]).0 == (#[trigger] lst[b]).0 ==> a == b,
        u2 == if unfed_by_any(args, lst[i].0) { u.push(queue_of(args, lst[i].0)) } else { u },
    ensures unfed_among(args, lst, i + 1, u2)
{
    reveal(unfed_among);
    let x = queue_of(args, lst[i].0);
    if unfed_by_any(args, lst[i].0) {
        assert forall|j: int| 0 <= j < u.len() implies u[j] != x by {
            let m = choose|m: int| 0 <= m < i && u[j] == queue_of(args, (#[trigger] lst[m]).0) && unfed_by_any(args, lst[m].0);
            assert(u[j].name == lst[m].0);
        }
        assert(u2.no_duplicates());
    }
    assert forall|j: int| 0 <= j < u2.len() implies from_list(args, lst, i + 1, #[trigger] u2[j]) by {
        if j < u.len() { assert(u2[j] == u[j]); assert(from_list(args, lst, i, u[j])); let m = choose|m: int| 0 <= m < i && u[j] == queue_of(args, (#[trigger] lst[m]).0) && unfed_by_any(args, lst[m].0); assert(u2[j] == queue_of(args, lst[m].0)); }
        else { assert(u2[j] == queue_of(args, lst[i].0)); }
    }
    assert forall|m: int| 0 <= m < i + 1 && unfed_by_any(args, (#[trigger] lst[m]).0) implies u2.contains(queue_of(args, lst[m].0)) by {
        if m < i { let j = choose|j: int| 0 <= j < u.len() && u[j] == queue_of(args, lst[m].0); assert(u2[j] == u[j]); } else { assert(u2[u.len() as int] == x); }
    }
}
pub proof fn unfed_all(args: Args, s: Map<Str, Sender>, lst: Seq<(Str, Sender)>, u: Seq<Queue>)
    requires lists(lst, s), unfed_among(args, lst, lst.len() as int, u), forall|k: Str| #[trigger] s.contains_key(k) <==> stated(args, k) is Some && reads(k)
    ensures exactly_queues(args, u, |n: Str| unfed_by_any(args, n))
{
    reveal(unfed_among);
    let p = |n: Str| unfed_by_any(args, n);
    assert forall|j: int| 0 <= j < u.len() implies from_list(args, lst, lst.len() as int, #[trigger] u[j]) by { }
    assert forall|n: Str| #[trigger] p(n) <==> u.contains(queue_of(args, n)) by {
        if p(n) { assert(s.contains_key(n)); let m = choose|m: int| 0 <= m < lst.len() && (#[trigger] lst[m]).0 == n; assert(u.contains(queue_of(args, lst[m].0))); }
        if u.contains(queue_of(args, n)) { let j = choose|j: int| 0 <= j < u.len() && u[j] == queue_of(args, n); let m = choose|m: int| 0 <= m < lst.len() && u[j] == queue_of(args, (#[trigger] lst[m]).0) && unfed_by_any(args, lst[m].0); assert(queue_of(args, n).name == queue_of(args, lst[m].0).name); }
    }
    assert forall|i: int| 0 <= i < u.len() implies #[trigger] u[i] == queue_of(args, u[i].name) by { let m = choose|m: int| 0 <= m < lst.len() && u[i] == queue_of(args, (#[trigger] lst[m]).0) && unfed_by_any(args, lst[m].0); }
}
/// whether anybody's forwards have a name
pub proof fn any_fed(args: Args, t: Topo, g: Graph<Sender>, s: Map<Str, Sender>, r: Map<Str, Receiver>, n: Str, vs: Seq<&Vec<String>>, b: bool)
    requires
        laid(args, t, g, s, r, ISet::full()), stated(args, n) is Some, reads(n),
        exists|z: Seq<(Str, Vec<String>)>| #[trigger] lists(z, t) && vs.len() == z.len() && forall|i: int| 0 <= i < z.len() ==> *(#[trigger] vs[i]) == z[i].1,
        b <==> exists|i: int| 0 <= i < vs.len() && has_text((#[trigger] vs[i])@, n),
    ensures b == !unfed_by_any(args, n)
{
    reveal(laid);
    let z = choose|z: Seq<(Str, Vec<String>)>| #[trigger] lists(z, t) && vs.len() == z.len() && forall|i: int| 0 <= i < z.len() ==> *(#[trigger] vs[i]) == z[i].1;
    if b { let i = choose|i: int| 0 <= i < vs.len() && has_text((#[trigger] vs[i])@, n); assert(*vs[i] == z[i].1); assert(t.contains_key(z[i].0)); assert(feeds(args, z[i].0, n)); }
    if !unfed_by_any(args, n) {
        let a = choose|a: Str| #[trigger] feeds(args, a, n);
        assert(t.contains_key(a));
        let i = choose|i: int| 0 <= i < z.len() && (#[trigger] z[i]).0 == a;
        assert(has_text(vs[i]@, n));
    }
}
/// everything is started; a set of all names stands for the kinds one by one
#[verifier::opaque]
pub open spec fn started(args: Args, g: Graph<Sender>, s: Map<Str, Sender>, r: Map<Str, Receiver>, h1: Map<Str, ThreadHandle>, h2: Map<Str, ThreadHandle>, h3: Map<Str, ThreadHandle>, f: Set<Str>) -> bool {
    ready(args, g, s, r, every()) && running(args, h1, 0, 8, every()) && running(args, h2, 8, 12, every()) && running(args, h3, 12, 18, every()) && pulsed(args, f, every())
}
pub proof fn all_started(args: Args, g: Graph<Sender>, s: Map<Str, Sender>, r: Map<Str, Receiver>, h1: Map<Str, ThreadHandle>, h2: Map<Str, ThreadHandle>, h3: Map<Str, ThreadHandle>, f: Set<Str>)
    requires at_work(args, g, s, r, h1, h2, h3, f, 18)
    ensures started(args, g, s, r, h1, h2, h3, f)
{
    reveal(started); reveal(at_work);
    assert(kinds(18) =~= every());
}
pub proof fn started_none(args: Args, g: Graph<Sender>, s: Map<Str, Sender>, r: Map<Str, Receiver>)
    requires ready(args, g, s, r, ISet::empty())
    ensures at_work(args, g, s, r, Map::empty(), Map::empty(), Map::empty(), Set::empty(), 0)
{
    reveal(at_work);
    laid_none(args);
    assert(kinds(0) =~= ISet::<Str>::empty());
}
/// whatever the sources forward to has a queue
pub proof fn fed_there(args: Args, g: Graph<Sender>, s: Map<Str, Sender>, r: Map<Str, Receiver>, h1: Map<Str, ThreadHandle>, h2: Map<Str, ThreadHandle>, h: Map<Str, ThreadHandle>, f: Set<Str>, n: Str)
    requires started(args, g, s, r, h1, h2, h, f), f.contains(n)
    ensures s.contains_key(n)
{
    reveal(started); reveal(ready); reveal(running);
    let d = every();
    let a = choose|a: Str| d.contains(a) && !reads(a) && #[trigger] feeds(args, a, n);
    assert(h.contains_key(a));
    assert(right(args, a, h[a].job()));
}
pub proof fn has_queue(args: Args, t: Topo, g: Graph<Sender>, s: Map<Str, Sender>, r: Map<Str, Receiver>, n: Str)
    requires laid(args, t, g, s, r, ISet::full()), s.contains_key(n)
    ensures stated(args, n) is Some, reads(n), s[n].q() == queue_of(args, n)
{ reveal(laid); }
pub proof fn has_queues(args: Args, t: Topo, g: Graph<Sender>, s: Map<Str, Sender>, r: Map<Str, Receiver>)
    requires laid(args, t, g, s, r, ISet::full())
    ensures forall|k: Str| #[trigger] s.contains_key(k) <==> stated(args, k) is Some && reads(k)
{ reveal(laid); }
pub proof fn all_ended(args: Args, g: Graph<Sender>, s: Map<Str, Sender>, r: Map<Str, Receiver>, h1: Map<Str, ThreadHandle>, h2: Map<Str, ThreadHandle>, h3: Map<Str, ThreadHandle>, f: Set<Str>, w: World)
    requires
        started(args, g, s, r, h1, h2, h3, f),
        jobs_of(h1, w.joined()), jobs_of(h2, w.joined()), jobs_of(h3, w.stopped()),
        exactly_queues(args, w.told(), |n: Str| unfed_by_any(args, n)),
        w.timer() is Some && exactly_queues(args, w.timer()->0, |b: Str| exists|a: Str| !reads(a) && #[trigger] feeds(args, a, b)),
        w.clock(),
    ensures ended(w, args)
{
    reveal(running); reveal(started);
    let d = every();
    assert forall|k: Str| #[trigger] stated(args, k) is Some && !reads(k) implies exists|j: Job| right(args, k, j) && w.stopped().contains(j) by { assert(d.contains(k)); assert(h3.contains_key(k)); assert(right(args, k, h3[k].job())); }
    assert forall|k: Str| #[trigger] stated(args, k) is Some && reads(k) implies exists|j: Job| right(args, k, j) && w.joined().contains(j) by { assert(d.contains(k)); if kind_of(k) < 8 { assert(h1.contains_key(k)); assert(right(args, k, h1[k].job())); } else { assert(h2.contains_key(k)); assert(right(args, k, h2[k].job())); } }
}

/*@ part src/bin/cernan.rs main `let mut adjacency_matrix = matrix::Adjacency::<hopper::Sender<metric::Event>>::new(); $*b { for ($k, $f) in &config_topology { $*c } }`
sig:
    pub fn lay_all(args: &Args, senders: &mut NameMap<Sender>, receivers: &mut NameMap<Receiver>, config_topology: &mut NameMap<Vec<String>>, adjacency_matrix: &mut Adjacency<Sender>)
rw `if let Some(ref config) = args.null { $*b }` => `if let Some(ref config) = args.null { lay_null(config, args, senders, receivers, config_topology, Ghost(adjacency_matrix.g()), Ghost(d)); } proof { if args.null is None { nothing_0(a0); } lay_skip(a0, config_topology@, adjacency_matrix.g(), senders@, receivers@, d, 0, args.null is Some); d = d.union(of_kind(0)); }`
rw `if let Some(ref config) = args.console { $*b }` => `if let Some(ref config) = args.console { lay_console(config, args, senders, receivers, config_topology, Ghost(adjacency_matrix.g()), Ghost(d)); } proof { if args.console is None { nothing_1(a0); } lay_skip(a0, config_topology@, adjacency_matrix.g(), senders@, receivers@, d, 1, args.console is Some); d = d.union(of_kind(1)); }`
rw `if let Some(ref config) = args.wavefront { $*b }` => `if let Some(ref config) = args.wavefront { lay_wavefront(config, args, senders, receivers, config_topology, Ghost(adjacency_matrix.g()), Ghost(d)); } proof { if args.wavefront is None { nothing_2(a0); } lay_skip(a0, config_topology@, adjacency_matrix.g(), senders@, receivers@, d, 2, args.wavefront is Some); d = d.union(of_kind(2)); }`
rw `if let Some(ref config) = args.prometheus { $*b }` => `if let Some(ref config) = args.prometheus { lay_prometheus(config, args, senders, receivers, config_topology, Ghost(adjacency_matrix.g()), Ghost(d)); } proof { if args.prometheus is None { nothing_3(a0); } lay_skip(a0, config_topology@, adjacency_matrix.g(), senders@, receivers@, d, 3, args.prometheus is Some); d = d.union(of_kind(3)); }`
rw `if let Some(ref config) = args.influxdb { $*b }` => `if let Some(ref config) = args.influxdb { lay_influxdb(config, args, senders, receivers, config_topology, Ghost(adjacency_matrix.g()), Ghost(d)); } proof { if args.influxdb is None { nothing_4(a0); } lay_skip(a0, config_topology@, adjacency_matrix.g(), senders@, receivers@, d, 4, args.influxdb is Some); d = d.union(of_kind(4)); }`
rw `if let Some(ref config) = args.native_sink_config { $*b }` => `if let Some(ref config) = args.native_sink_config { lay_native_sink_config(config, args, senders, receivers, config_topology, Ghost(adjacency_matrix.g()), Ghost(d)); } proof { if args.native_sink_config is None { nothing_5(a0); } lay_skip(a0, config_topology@, adjacency_matrix.g(), senders@, receivers@, d, 5, args.native_sink_config is Some); d = d.union(of_kind(5)); }`
rw `if let Some(ref config) = args.elasticsearch { $*b }` => `if let Some(ref config) = args.elasticsearch { lay_elasticsearch(config, args, senders, receivers, config_topology, Ghost(adjacency_matrix.g()), Ghost(d)); } proof { if args.elasticsearch is None { nothing_6(a0); } lay_skip(a0, config_topology@, adjacency_matrix.g(), senders@, receivers@, d, 6, args.elasticsearch is Some); d = d.union(of_kind(6)); }`
rw `if let Some(ref configs) = args.kafkas { $*b }` => `if let Some(ref configs) = args.kafkas { lay_kafkas(configs, args, senders, receivers, config_topology, Ghost(adjacency_matrix.g()), Ghost(d)); } proof { if args.kafkas is None { nothing_7(a0); } lay_skip(a0, config_topology@, adjacency_matrix.g(), senders@, receivers@, d, 7, args.kafkas is Some); d = d.union(of_kind(7)); }`
rw `if let Some(ref configs) = args.programmable_filters { $*b }` => `if let Some(ref configs) = args.programmable_filters { lay_programmable_filters(configs, args, senders, receivers, config_topology, adjacency_matrix, Ghost(d)); } proof { if args.programmable_filters is None { nothing_8(a0); } lay_skip(a0, config_topology@, adjacency_matrix.g(), senders@, receivers@, d, 8, args.programmable_filters is Some); d = d.union(of_kind(8)); }`
rw `if let Some(ref configs) = args.delay_filters { $*b }` => `if let Some(ref configs) = args.delay_filters { lay_delay_filters(configs, args, senders, receivers, config_topology, adjacency_matrix, Ghost(d)); } proof { if args.delay_filters is None { nothing_9(a0); } lay_skip(a0, config_topology@, adjacency_matrix.g(), senders@, receivers@, d, 9, args.delay_filters is Some); d = d.union(of_kind(9)); }`
rw `if let Some(ref configs) = args.json_encode_filters { $*b }` => `if let Some(ref configs) = args.json_encode_filters { lay_json_encode_filters(configs, args, senders, receivers, config_topology, adjacency_matrix, Ghost(d)); } proof { if args.json_encode_filters is None { nothing_10(a0); } lay_skip(a0, config_topology@, adjacency_matrix.g(), senders@, receivers@, d, 10, args.json_encode_filters is Some); d = d.union(of_kind(10)); }`
rw `if let Some(ref configs) = args.flush_boundary_filters { $*b }` => `if let Some(ref configs) = args.flush_boundary_filters { lay_flush_boundary_filters(configs, args, senders, receivers, config_topology, adjacency_matrix, Ghost(d)); } proof { if args.flush_boundary_filters is None { nothing_11(a0); } lay_skip(a0, config_topology@, adjacency_matrix.g(), senders@, receivers@, d, 11, args.flush_boundary_filters is Some); d = d.union(of_kind(11)); }`
rw `if let Some(ref configs) = args.native_server_config { $*b }` => `if let Some(ref configs) = args.native_server_config { lay_native_server_config(configs, args, config_topology, adjacency_matrix, Ghost(senders@), Ghost(receivers@), Ghost(d)); } proof { if args.native_server_config is None { nothing_12(a0); } lay_skip(a0, config_topology@, adjacency_matrix.g(), senders@, receivers@, d, 12, args.native_server_config is Some); d = d.union(of_kind(12)); }`
rw `{ let internal_config = &args.internal; $*b }` => `{ let internal_config = &args.internal; lay_internal(internal_config, args, config_topology, adjacency_matrix, Ghost(senders@), Ghost(receivers@), Ghost(d)); } proof { d = d.union(of_kind(13)); }`
rw `if let Some(ref configs) = args.statsds { $*b }` => `if let Some(ref configs) = args.statsds { lay_statsds(configs, args, config_topology, adjacency_matrix, Ghost(senders@), Ghost(receivers@), Ghost(d)); } proof { if args.statsds is None { nothing_14(a0); } lay_skip(a0, config_topology@, adjacency_matrix.g(), senders@, receivers@, d, 14, args.statsds is Some); d = d.union(of_kind(14)); }`
rw `if let Some(ref configs) = args.graphites { $*b }` => `if let Some(ref configs) = args.graphites { lay_graphites(configs, args, config_topology, adjacency_matrix, Ghost(senders@), Ghost(receivers@), Ghost(d)); } proof { if args.graphites is None { nothing_15(a0); } lay_skip(a0, config_topology@, adjacency_matrix.g(), senders@, receivers@, d, 15, args.graphites is Some); d = d.union(of_kind(15)); }`
rw `if let Some(ref configs) = args.avros { $*b }` => `if let Some(ref configs) = args.avros { lay_avros(configs, args, config_topology, adjacency_matrix, Ghost(senders@), Ghost(receivers@), Ghost(d)); } proof { if args.avros is None { nothing_16(a0); } lay_skip(a0, config_topology@, adjacency_matrix.g(), senders@, receivers@, d, 16, args.avros is Some); d = d.union(of_kind(16)); }`
rw `if let Some(ref configs) = args.files { $*b }` => `if let Some(ref configs) = args.files { lay_files(configs, args, config_topology, adjacency_matrix, Ghost(senders@), Ghost(receivers@), Ghost(d)); } proof { if args.files is None { nothing_17(a0); } lay_skip(a0, config_topology@, adjacency_matrix.g(), senders@, receivers@, d, 17, args.files is Some); d = d.union(of_kind(17)); }`
spec:
    requires well_named(*args), old(senders)@ == Map::<Str, Sender>::empty(), old(receivers)@ == Map::<Str, Receiver>::empty(), old(config_topology)@ == Map::<Str, Vec<String>>::empty(), old(adjacency_matrix).g() == Map::<Str, Map<Str, Option<Sender>>>::empty()
    ensures laid(*args, final(config_topology)@, final(adjacency_matrix).g(), final(senders)@, final(receivers)@, ISet::full()), ready(*args, final(adjacency_matrix).g(), final(senders)@, final(receivers)@, ISet::empty())
at fn-start:
    let ghost a0 = *args;
    let ghost mut d: ISet<Str> = ISet::empty();
    proof { laid_none(a0); }
at fn-end:
    proof { assert forall|k: Str| #[trigger] d.contains(k) <==> 0 <= kind_of(k) < 18 by { } laid_all(a0, config_topology@, adjacency_matrix.g(), senders@, receivers@, d); }
@*/

/*@ part src/bin/cernan.rs main `{ for ($k, $f) in &config_topology { $*c } } $*b if let Some(cfg_map) = mem::replace(&mut args.programmable_filters, None) { $*d }`
sig:
    pub fn start_sinks(args: &mut Args, Ghost(a0): Ghost<Args>, senders: &NameMap<Sender>, receivers: &mut NameMap<Receiver>, adjacency_matrix: &mut Adjacency<Sender>, sinks: &mut NameMap<ThreadHandle>, filters: &NameMap<ThreadHandle>, sources: &NameMap<ThreadHandle>, flush_sends: &NameSet)
rw `if let Some(config) = taken(&mut args.null) { $*b }` => `let ghost was = args.null is Some; proof { next_kind(a0, adjacency_matrix.g(), senders@, receivers@, sinks@, filters@, sources@, flush_sends@, 0); } if let Some(config) = taken(&mut args.null) { start_null(config, receivers, adjacency_matrix, sinks, Ghost(a0), Ghost(senders@), Ghost(kinds(0))); } proof { if !was { nothing_0(a0); } start_skip(a0, adjacency_matrix.g(), senders@, receivers@, sinks@, filters@, sources@, flush_sends@, 0, was); }`
rw `if let Some(config) = taken(&mut args.console) { $*b }` => `let ghost was = args.console is Some; proof { next_kind(a0, adjacency_matrix.g(), senders@, receivers@, sinks@, filters@, sources@, flush_sends@, 1); } if let Some(config) = taken(&mut args.console) { start_console(config, receivers, adjacency_matrix, sinks, Ghost(a0), Ghost(senders@), Ghost(kinds(1))); } proof { if !was { nothing_1(a0); } start_skip(a0, adjacency_matrix.g(), senders@, receivers@, sinks@, filters@, sources@, flush_sends@, 1, was); }`
rw `if let Some(config) = taken(&mut args.wavefront) { $*b }` => `let ghost was = args.wavefront is Some; proof { next_kind(a0, adjacency_matrix.g(), senders@, receivers@, sinks@, filters@, sources@, flush_sends@, 2); } if let Some(config) = taken(&mut args.wavefront) { start_wavefront(config, receivers, adjacency_matrix, sinks, Ghost(a0), Ghost(senders@), Ghost(kinds(2))); } proof { if !was { nothing_2(a0); } start_skip(a0, adjacency_matrix.g(), senders@, receivers@, sinks@, filters@, sources@, flush_sends@, 2, was); }`
rw `if let Some(config) = taken(&mut args.prometheus) { $*b }` => `let ghost was = args.prometheus is Some; proof { next_kind(a0, adjacency_matrix.g(), senders@, receivers@, sinks@, filters@, sources@, flush_sends@, 3); } if let Some(config) = taken(&mut args.prometheus) { start_prometheus(config, receivers, adjacency_matrix, sinks, Ghost(a0), Ghost(senders@), Ghost(kinds(3))); } proof { if !was { nothing_3(a0); } start_skip(a0, adjacency_matrix.g(), senders@, receivers@, sinks@, filters@, sources@, flush_sends@, 3, was); }`
rw `if let Some(config) = taken(&mut args.influxdb) { $*b }` => `let ghost was = args.influxdb is Some; proof { next_kind(a0, adjacency_matrix.g(), senders@, receivers@, sinks@, filters@, sources@, flush_sends@, 4); } if let Some(config) = taken(&mut args.influxdb) { start_influxdb(config, receivers, adjacency_matrix, sinks, Ghost(a0), Ghost(senders@), Ghost(kinds(4))); } proof { if !was { nothing_4(a0); } start_skip(a0, adjacency_matrix.g(), senders@, receivers@, sinks@, filters@, sources@, flush_sends@, 4, was); }`
rw `if let Some(config) = taken(&mut args.native_sink_config) { $*b }` => `let ghost was = args.native_sink_config is Some; proof { next_kind(a0, adjacency_matrix.g(), senders@, receivers@, sinks@, filters@, sources@, flush_sends@, 5); } if let Some(config) = taken(&mut args.native_sink_config) { start_native_sink_config(config, receivers, adjacency_matrix, sinks, Ghost(a0), Ghost(senders@), Ghost(kinds(5))); } proof { if !was { nothing_5(a0); } start_skip(a0, adjacency_matrix.g(), senders@, receivers@, sinks@, filters@, sources@, flush_sends@, 5, was); }`
rw `if let Some(config) = taken(&mut args.elasticsearch) { $*b }` => `let ghost was = args.elasticsearch is Some; proof { next_kind(a0, adjacency_matrix.g(), senders@, receivers@, sinks@, filters@, sources@, flush_sends@, 6); } if let Some(config) = taken(&mut args.elasticsearch) { start_elasticsearch(config, receivers, adjacency_matrix, sinks, Ghost(a0), Ghost(senders@), Ghost(kinds(6))); } proof { if !was { nothing_6(a0); } start_skip(a0, adjacency_matrix.g(), senders@, receivers@, sinks@, filters@, sources@, flush_sends@, 6, was); }`
rw `if let Some(cfgs) = taken(&mut args.kafkas) { $*b }` => `let ghost was = args.kafkas is Some; proof { next_kind(a0, adjacency_matrix.g(), senders@, receivers@, sinks@, filters@, sources@, flush_sends@, 7); } if let Some(cfgs) = taken(&mut args.kafkas) { start_kafkas(cfgs, receivers, adjacency_matrix, sinks, Ghost(a0), Ghost(senders@), Ghost(kinds(7))); } proof { if !was { nothing_7(a0); } start_skip(a0, adjacency_matrix.g(), senders@, receivers@, sinks@, filters@, sources@, flush_sends@, 7, was); }`
spec:
    requires well_named(a0), old(args).null == a0.null, old(args).console == a0.console, old(args).wavefront == a0.wavefront, old(args).prometheus == a0.prometheus, old(args).influxdb == a0.influxdb, old(args).native_sink_config == a0.native_sink_config, old(args).elasticsearch == a0.elasticsearch, old(args).kafkas == a0.kafkas, old(args).programmable_filters == a0.programmable_filters, old(args).delay_filters == a0.delay_filters, old(args).json_encode_filters == a0.json_encode_filters, old(args).flush_boundary_filters == a0.flush_boundary_filters, old(args).native_server_config == a0.native_server_config, old(args).internal == a0.internal, old(args).statsds == a0.statsds, old(args).graphites == a0.graphites, old(args).avros == a0.avros, old(args).files == a0.files, at_work(a0, old(adjacency_matrix).g(), senders@, old(receivers)@, old(sinks)@, filters@, sources@, flush_sends@, 0)
    ensures final(args).programmable_filters == a0.programmable_filters, final(args).delay_filters == a0.delay_filters, final(args).json_encode_filters == a0.json_encode_filters, final(args).flush_boundary_filters == a0.flush_boundary_filters, final(args).native_server_config == a0.native_server_config, final(args).internal == a0.internal, final(args).statsds == a0.statsds, final(args).graphites == a0.graphites, final(args).avros == a0.avros, final(args).files == a0.files, at_work(a0, final(adjacency_matrix).g(), senders@, final(receivers)@, final(sinks)@, filters@, sources@, flush_sends@, 8)
at fn-start:
    hide(well_named); hide(none_of); hide(pulsed); hide(kinds);
@*/

/*@ part src/bin/cernan.rs main `if let Some(cfgs) = mem::replace(&mut args.kafkas, None) { $*c } $*b if let Some(cfg_map) = mem::replace(&mut args.native_server_config, None) { $*d }`
sig:
    pub fn start_filters(args: &mut Args, Ghost(a0): Ghost<Args>, senders: &NameMap<Sender>, receivers: &mut NameMap<Receiver>, adjacency_matrix: &mut Adjacency<Sender>, sinks: &NameMap<ThreadHandle>, filters: &mut NameMap<ThreadHandle>, sources: &NameMap<ThreadHandle>, flush_sends: &NameSet)
rw `if let Some(cfg_map) = taken(&mut args.programmable_filters) { $*b }` => `let ghost was = args.programmable_filters is Some; proof { next_kind(a0, adjacency_matrix.g(), senders@, receivers@, sinks@, filters@, sources@, flush_sends@, 8); } if let Some(cfg_map) = taken(&mut args.programmable_filters) { start_programmable_filters(cfg_map, receivers, adjacency_matrix, senders, filters, Ghost(a0), Ghost(kinds(8))); } proof { if !was { nothing_8(a0); } start_skip(a0, adjacency_matrix.g(), senders@, receivers@, sinks@, filters@, sources@, flush_sends@, 8, was); }`
rw `if let Some(cfg_map) = taken(&mut args.delay_filters) { $*b }` => `let ghost was = args.delay_filters is Some; proof { next_kind(a0, adjacency_matrix.g(), senders@, receivers@, sinks@, filters@, sources@, flush_sends@, 9); } if let Some(cfg_map) = taken(&mut args.delay_filters) { start_delay_filters(cfg_map, receivers, adjacency_matrix, senders, filters, Ghost(a0), Ghost(kinds(9))); } proof { if !was { nothing_9(a0); } start_skip(a0, adjacency_matrix.g(), senders@, receivers@, sinks@, filters@, sources@, flush_sends@, 9, was); }`
rw `if let Some(cfg_map) = taken(&mut args.json_encode_filters) { $*b }` => `let ghost was = args.json_encode_filters is Some; proof { next_kind(a0, adjacency_matrix.g(), senders@, receivers@, sinks@, filters@, sources@, flush_sends@, 10); } if let Some(cfg_map) = taken(&mut args.json_encode_filters) { start_json_encode_filters(cfg_map, receivers, adjacency_matrix, senders, filters, Ghost(a0), Ghost(kinds(10))); } proof { if !was { nothing_10(a0); } start_skip(a0, adjacency_matrix.g(), senders@, receivers@, sinks@, filters@, sources@, flush_sends@, 10, was); }`
rw `if let Some(cfg_map) = taken(&mut args.flush_boundary_filters) { $*b }` => `let ghost was = args.flush_boundary_filters is Some; proof { next_kind(a0, adjacency_matrix.g(), senders@, receivers@, sinks@, filters@, sources@, flush_sends@, 11); } if let Some(cfg_map) = taken(&mut args.flush_boundary_filters) { start_flush_boundary_filters(cfg_map, receivers, adjacency_matrix, senders, filters, Ghost(a0), Ghost(kinds(11))); } proof { if !was { nothing_11(a0); } start_skip(a0, adjacency_matrix.g(), senders@, receivers@, sinks@, filters@, sources@, flush_sends@, 11, was); }`
spec:
    requires well_named(a0), old(args).programmable_filters == a0.programmable_filters, old(args).delay_filters == a0.delay_filters, old(args).json_encode_filters == a0.json_encode_filters, old(args).flush_boundary_filters == a0.flush_boundary_filters, old(args).native_server_config == a0.native_server_config, old(args).internal == a0.internal, old(args).statsds == a0.statsds, old(args).graphites == a0.graphites, old(args).avros == a0.avros, old(args).files == a0.files, at_work(a0, old(adjacency_matrix).g(), senders@, old(receivers)@, sinks@, old(filters)@, sources@, flush_sends@, 8)
    ensures final(args).native_server_config == a0.native_server_config, final(args).internal == a0.internal, final(args).statsds == a0.statsds, final(args).graphites == a0.graphites, final(args).avros == a0.avros, final(args).files == a0.files, at_work(a0, final(adjacency_matrix).g(), senders@, final(receivers)@, sinks@, final(filters)@, sources@, flush_sends@, 12)
at fn-start:
    hide(well_named); hide(none_of); hide(pulsed); hide(kinds);
@*/

/*@ part src/bin/cernan.rs main `if let Some(cfg_map) = mem::replace(&mut args.flush_boundary_filters, None) { $*c }; $*b let mut flush_channels = Vec::new();`
sig:
    pub fn start_sources(args: &mut Args, Ghost(a0): Ghost<Args>, senders: &NameMap<Sender>, receivers: &NameMap<Receiver>, adjacency_matrix: &mut Adjacency<Sender>, sinks: &NameMap<ThreadHandle>, filters: &NameMap<ThreadHandle>, sources: &mut NameMap<ThreadHandle>, flush_sends: &mut NameSet)
rw `if let Some(cfg_map) = taken(&mut args.native_server_config) { $*b }` => `let ghost was = args.native_server_config is Some; proof { next_kind(a0, adjacency_matrix.g(), senders@, receivers@, sinks@, filters@, sources@, flush_sends@, 12); } if let Some(cfg_map) = taken(&mut args.native_server_config) { start_native_server_config(cfg_map, adjacency_matrix, senders, flush_sends, sources, Ghost(a0), Ghost(receivers@), Ghost(kinds(12))); } proof { if !was { nothing_12(a0); } start_skip(a0, adjacency_matrix.g(), senders@, receivers@, sinks@, filters@, sources@, flush_sends@, 12, was); }`
rw `if let Some(cfg_map) = taken(&mut args.statsds) { $*b }` => `let ghost was = args.statsds is Some; proof { next_kind(a0, adjacency_matrix.g(), senders@, receivers@, sinks@, filters@, sources@, flush_sends@, 14); } if let Some(cfg_map) = taken(&mut args.statsds) { start_statsds(cfg_map, adjacency_matrix, senders, flush_sends, sources, Ghost(a0), Ghost(receivers@), Ghost(kinds(14))); } proof { if !was { nothing_14(a0); } start_skip(a0, adjacency_matrix.g(), senders@, receivers@, sinks@, filters@, sources@, flush_sends@, 14, was); }`
rw `if let Some(cfg_map) = taken(&mut args.graphites) { $*b }` => `let ghost was = args.graphites is Some; proof { next_kind(a0, adjacency_matrix.g(), senders@, receivers@, sinks@, filters@, sources@, flush_sends@, 15); } if let Some(cfg_map) = taken(&mut args.graphites) { start_graphites(cfg_map, adjacency_matrix, senders, flush_sends, sources, Ghost(a0), Ghost(receivers@), Ghost(kinds(15))); } proof { if !was { nothing_15(a0); } start_skip(a0, adjacency_matrix.g(), senders@, receivers@, sinks@, filters@, sources@, flush_sends@, 15, was); }`
rw `if let Some(cfg_map) = taken(&mut args.avros) { $*b }` => `let ghost was = args.avros is Some; proof { next_kind(a0, adjacency_matrix.g(), senders@, receivers@, sinks@, filters@, sources@, flush_sends@, 16); } if let Some(cfg_map) = taken(&mut args.avros) { start_avros(cfg_map, adjacency_matrix, senders, flush_sends, sources, Ghost(a0), Ghost(receivers@), Ghost(kinds(16))); } proof { if !was { nothing_16(a0); } start_skip(a0, adjacency_matrix.g(), senders@, receivers@, sinks@, filters@, sources@, flush_sends@, 16, was); }`
rw `if let Some(cfg) = taken(&mut args.files) { $*b }` => `let ghost was = args.files is Some; proof { next_kind(a0, adjacency_matrix.g(), senders@, receivers@, sinks@, filters@, sources@, flush_sends@, 17); } if let Some(cfg) = taken(&mut args.files) { start_files(cfg, adjacency_matrix, senders, flush_sends, sources, Ghost(a0), Ghost(receivers@), Ghost(kinds(17))); } proof { if !was { nothing_17(a0); } start_skip(a0, adjacency_matrix.g(), senders@, receivers@, sinks@, filters@, sources@, flush_sends@, 17, was); }`
rw `populate_forwards(Some(&mut flush_sends), $*a)` => `populate_forwards(Some(()), flush_sends, $*a)`
rw `populate_forwards(None, $*a)` => `populate_forwards(None, flush_sends, $*a)`
rw `&mut adjacency_matrix` => `adjacency_matrix`
rw `&senders` => `senders`
spec:
    requires well_named(a0), old(args).native_server_config == a0.native_server_config, old(args).internal == a0.internal, old(args).statsds == a0.statsds, old(args).graphites == a0.graphites, old(args).avros == a0.avros, old(args).files == a0.files, at_work(a0, old(adjacency_matrix).g(), senders@, receivers@, sinks@, filters@, old(sources)@, old(flush_sends)@, 12)
    ensures at_work(a0, final(adjacency_matrix).g(), senders@, receivers@, sinks@, filters@, final(sources)@, final(flush_sends)@, 18)
at fn-start:
    hide(well_named); hide(none_of); hide(pulsed); hide(kinds);
at after `let internal_config = taken_whole($*a);`:
    proof { next_kind(a0, adjacency_matrix.g(), senders@, receivers@, sinks@, filters@, sources@, flush_sends@, 13); }
    let ghost (gi, hi, fi) = (adjacency_matrix.g(), sources@, flush_sends@);
at before `sources.insert(internal_config`:
    let ghost vi = internal_send@;
at before `let ghost was = args.statsds is Some;`:
    proof {
        let k = a0.internal.config_path->0@;
        assert(sources@ == hi.insert(k, sources@[k]));
        internal_started(a0, gi, adjacency_matrix.g(), senders@, receivers@, hi, sources@[k], fi, flush_sends@, kinds(13), vi);
        start_skip(a0, adjacency_matrix.g(), senders@, receivers@, sinks@, filters@, sources@, flush_sends@, 13, true);
    }
@*/

/*@ fn src/bin/cernan.rs main
sig:
    pub fn program(w: &mut World)
rw `openssl_probe::init_ssl_cert_env_vars();` => ``
rw `let level = match verbose { $*m };` => ``
rw `fern::Dispatch::new().format($*f).level($*l).chain($*c).apply().must();` => ``
rw `let mut adjacency_matrix = matrix::Adjacency::<hopper::Sender<metric::Event>>::new(); $*b { for ($k, $f) in &config_topology { $*c } }` => `let mut adjacency_matrix = Adjacency::new(); lay_all(&args, &mut senders, &mut receivers, &mut config_topology, &mut adjacency_matrix); { for ($k, $f) in &config_topology { $*c } }`
rw `{ for ($k, $f) in &config_topology { $*c } } $*b let mut flush_channels = Vec::new();` => `let ghost (g9, r9) = (adjacency_matrix.g(), receivers@); { for q in each(&config_topology) { let ($k, $f) = q; $*c } } proof { started_none(a0, adjacency_matrix.g(), senders@, receivers@); } start_sinks(&mut args, Ghost(a0), &senders, &mut receivers, &mut adjacency_matrix, &mut sinks, &filters, &sources, &flush_sends); start_filters(&mut args, Ghost(a0), &senders, &mut receivers, &mut adjacency_matrix, &sinks, &mut filters, &sources, &flush_sends); start_sources(&mut args, Ghost(a0), &senders, &receivers, &mut adjacency_matrix, &sinks, &filters, &mut sources, &mut flush_sends); proof { all_started(a0, adjacency_matrix.g(), senders@, receivers@, sinks@, filters@, sources@, flush_sends@); } let ghost (gs, rs, h1, h2, h3) = (adjacency_matrix.g(), receivers@, sinks@, filters@, sources@); let mut flush_channels = Vec::new();`
rw `HashMap::new()` => `HashMap::default()`
rw `HashSet::new()` => `NameSet::new()`
rw `for forward in forwards {` => `for forward in forwards.iter() {`
rw `for destination in &flush_sends {` => `let ds = members(&flush_sends); let ghost dl = ds@; for destination in ds {`
rw `for ($k, $f) in &senders {` => `let ss = each(&senders); let ghost sl = flat_ref(ss@); for q in ss { let ($k, $f) = q;`
rw `config_topology.values().any(|$f| $f.contains($k))` => `{ let vs = config_topology.values(); let ghost vl = vs.seq(); let b = vs.any(|$f: &Vec<String>| -> (r: bool) ensures r == has_text($f@, $k@) { within($f, $k) }); proof { any_fed(a0, config_topology@, g9, senders@, r9, $k@, vl, b); } b }`
rw `cernan::source::FlushTimer::new($v, cernan::source::FlushTimerConfig).run();` => `w.start_timer($v);`
rw `cernan::thread::spawn(move |_poll| { cernan::time::update_time(); });` => `w.start_clock();`
rw `signal.recv()` => `signal.recv(w)`
rw `for ($k, $f) in sources {` => `let es = all(sources); let ghost el = flat(es@); for q in es { let ($k, $f) = q;`
rw `source_worker.shutdown()` => `source_worker.shutdown(w)`
rw `cernan::util::send(&mut unfed, metric::Event::Shutdown)` => `cernan::util::send(&mut unfed, metric::Event::Shutdown, w)`
rw `join_all($x)` => `join_all($x, w)`
spec:
    requires !old(w).signalled(), !old(w).told_any(), old(w).timer() is None
    ensures ended(*final(w), configured(asked()))
at after `let mut args = $*a;`:
    let ghost a0 = args;
at before `process::exit(1)`:
    proof { assert(!config_topology@.contains_key(forward@)); }
loop 1:
    invariant true
loop 2:
    invariant true
loop 3 for iter it:
    invariant
        started(a0, gs, senders@, rs, h1, h2, h3, flush_sends@),
        forall|n: Str| #[trigger] flush_sends@.contains(n) <==> exists|i: int| 0 <= i < dl.len() && (#[trigger] dl[i])@ == n,
        it.seq() == dl, flush_channels@.len() == it.index(),
        forall|i: int| 0 <= i < it.index() ==> senders@.contains_key((#[trigger] dl[i])@) && flush_channels@[i] == senders@[dl[i]@],
at loop 3 after:
    proof { pulses_to(a0, gs, senders@, rs, h1, h2, h3, flush_sends@, dl, flush_channels@); }
at before `process::exit(0)`:
    proof { assert(*destination == *dl[it.index()]); fed_there(a0, gs, senders@, rs, h1, h2, h3, flush_sends@, destination@); assert(false); }
loop 4 for iter it:
    invariant
        laid(a0, config_topology@, g9, senders@, r9, ISet::full()), lists(sl, senders@),
        sl == flat_ref(it.seq()), unfed_among(a0, sl, it.index(), queues(unfed@)),
at before `drop(flush_sends);`:
    let ghost (s9, f9) = (senders@, flush_sends@);
at loop 4 before:
    proof { reveal(unfed_among); assert(queues(unfed@) =~= Seq::empty()); }
at loop 4 start:
    let ghost u0 = unfed@;
    proof { assert(sl[it.index()] == (it.seq()[it.index()].0@, *it.seq()[it.index()].1)); assert(senders@.contains_key(sl[it.index()].0)); has_queue(a0, config_topology@, g9, senders@, r9, sl[it.index()].0); }
at loop 4 end:
    proof {
        let x = sl[it.index()];
        assert(queues(u0.push(x.1)) =~= queues(u0).push(x.1.q()));
        unfed_step(a0, sl, it.index(), queues(u0), queues(unfed@));
    }
at loop 4 after:
    proof { has_queues(a0, config_topology@, g9, senders@, r9); unfed_all(a0, senders@, sl, queues(unfed@)); }
loop 5 for iter it:
    invariant
        el == flat(it.seq()), w.signalled(), !w.told_any(), w.timer() == w1.timer(), w.clock(),
        forall|i: int| 0 <= i < it.index() ==> w.stopped().contains((#[trigger] el[i]).1.job()),
at loop 5 before:
    let ghost w1 = *w;
at loop 5 start:
    proof { assert(el[it.index()] == (it.seq()[it.index()].0@, it.seq()[it.index()].1)); }
at loop 5 after:
    proof { assert forall|k: Str| #[trigger] h3.contains_key(k) implies w.stopped().contains(h3[k].job()) by { let i = choose|i: int| 0 <= i < el.len() && (#[trigger] el[i]).0 == k; assert(el[i].1 == h3[k]); } }
at fn-end:
    proof { all_ended(a0, gs, s9, rs, h1, h2, h3, f9, *w); }
@*/
fn main() {}
}
