"""What each check runs."""
PROPS = {
    "C09": dict(
        level="proof", proofs=["C09.vrs"], witness="C09.rs", budget=6,
        bounded="random event sequences of up to 40 steps through the real filter, against a reference",
        assumptions=["binary_search_by behaves as the standard library documents it"],
    ),
    "C10": dict(
        level="proof", proofs=["C10.vrs"], witness="C10.rs", budget=6,
        bounded="random events and tolerances around the window edge and at the ends of i64, through the real filter",
        assumptions=["the system clock may state any non-negative second at each reading; the first value of the cell that holds the time is one of them"],
    ),
    "C12": dict(
        level="proof", proofs=["C12.vrs"], witness="C12.rs", budget=8, externs=("hopper", "uuid"),
        bounded="random event sequences of up to 30 events, 1-4 sources, random flush intervals and valve behaviour, through the real RunnableSink and a hopper queue",
        assumptions=["the queue hands out what was sent, in order", "each sink's own methods change nothing but its own state"],
    ),
    "C13": dict(
        level="proof", proofs=["C13.vrs"], witness="C13.rs", budget=8, externs=("hopper",),
        bounded="random event sequences and filter behaviours through the real run loop and hopper queues",
        assumptions=["the queue hands out what was sent, in order"],
    ),
    "C14": dict(
        level="proof", proofs=["C14.vrs"], witness="C14.rs", budget=8, externs=("real_hopper=hopper", "mio", "seahash", "slab"),
        bounded="random event sequences over 1-5 real hopper queues, some of them full",
        assumptions=["hopper accepts an event exactly when it answers Ok and hands a rejected event back"],
    ),
}
PROPS["C01"] = dict(
        level="proof", proofs=["C01.vrs"], witness="C01.rs", budget=8,
        bounded="random histories of up to 60 adds and resets over a few series and bins, against a reference store",
        assumptions=["binary_search_by behaves as the standard library documents it",
                     "no two different series of one store collide in their 64-bit hash",
                     "histograms of one series share their bins (the quantiles crate asserts it)",
                     "the sketches of the quantiles crate hold what they were given",
                     "the bin width is positive"])
PROPS["C02"] = dict(
        level="proof", proofs=["C02.vrs"], witness="C02.rs", budget=8,
        bounded="random points of every kind combined, and random builder calls, against exact values",
        assumptions=["the sketches of the quantiles crate hold what they were given and count them",
                     "histograms combined share their bins (the quantiles crate asserts it)",
                     "f64 operators are uninterpreted functions; x+y equals y+x"])
PROPS["C03"] = dict(
        level="proof", proofs=["C03.vrs"], witness="C03.rs", budget=6,
        bounded="random tag operations on points and lines, maps built in random orders and capacities, against ordered maps",
        assumptions=["hash maps and sets behave as the standard library documents them, iterating in any order",
                     "sorting depends only on the pairs sorted, and comparison of lists is equality of lists"])

PROPS["C07"] = dict(
        level="proof", proofs=["C07.vrs"], witness="C07.rs", budget=8, externs=("byteorder", "mio", "log"),
        bounded="random payloads up to 1 MiB, cut into random pieces, over a real loopback connection",
        assumptions=["io::Read and io::Write for a stream behave as the standard library documents them: an error takes no bytes",
                     "byteorder reads four bytes as a big-endian number"])
PROPS["C04"] = dict(
        level="proof", proofs=["C04.vrs"], witness="C04.rs", budget=8, hang=90, externs=("hopper",),
        bounded="random texts through the real parser, and random lines in random pieces over a real connection to the real source",
        assumptions=["split_whitespace, from_str and from_utf8 of the standard library decide what the words, numbers and texts of a line are",
                     "BufRead::read_until behaves as documented: what was read before a failure is in the buffer",
                     "waiting for events does not fail"])
PROPS["C05"] = dict(
        level="proof", proofs=["C05.vrs"], witness="C05.rs", budget=8, hang=90, externs=("hopper", "quantiles", "regex"),
        bounded="random packets and masks through the real parser, and random datagrams to the real source over loopback",
        assumptions=["the standard library decides what the lines and numbers of a text are; texts may be cut next to an ASCII character",
                     "the configured error bound is below 1 and configured bins are non-empty lists of numbers",
                     "a datagram is no longer than the source's buffer of 16,250 bytes",
                     "f64 operators are uninterpreted functions"])
PROPS["C08"] = dict(
        level="proof", proofs=["C08.vrs"], witness="C08.rs", budget=10, hang=120, externs=("hopper", "serde_avro", "uuid"),
        bounded="random payloads, whole and damaged, over up to two real connections to the real source, acknowledged in random orders",
        assumptions=["serde_avro decides what a complete avro container is",
                     "std::io::Cursor and byteorder read big-endian numbers and exact lengths as documented",
                     "random ids never repeat", "the acknowledgement bag releases a waiting key as C20 states",
                     "the payloads of a stream are read as C07 states"])
PROPS["C06"] = dict(
        level="proof", proofs=["C06.vrs"], witness="C06.rs", budget=10, hang=120, externs=("hopper", "protobuf"),
        bounded="random points and lines through up to two real sinks into the real source, random payloads, whole and damaged, of other peers, and peers which drop connections",
        assumptions=["the generated protobuf code reads what was written from the bytes the wire format gives a payload",
                     "a cached size is the one computed last; a payload stays under 4 GiB",
                     "a BufWriter and a CodedOutputStream pass on the bytes given to them in order, or answer an error",
                     "the payloads of a stream are read as C07 states",
                     "tags are laid over each other as C03 states"])
PROPS["C20"] = dict(
        level="proof", proofs=["C20.vrs"], witness="C20.rs", budget=5, externs=("uuid",),
        bounded="random operations and waits on the real bag against a reference, and up to four waiting threads",
        assumptions=["the bag's lock admits one thread at a time, and no thread panics while it holds it",
                     "hash maps behave as the standard library documents them"])
PROPS["C23"] = dict(
        level="proof", proofs=["C23.vrs"], witness="C23.rs", budget=8, hang=120, externs=("hopper", "mio"),
        bounded="the real TCP source with up to 40 connections whose handlers stay, end, crash or crash when told to end, and the real sources with connections in various states",
        assumptions=["mio delivers what a registration signals; waiting for it does not fail; a poller can be made",
                     "a connection's handler ends when told to (C04, C06, C08 state what it does until then)",
                     "token slabs as C22 states, sends as C14 states, datagrams as C05 states",
                     "hash maps behave as the standard library documents them; a lock is not poisoned",
                     "fewer than 2^64 connections, fewer than 2048 addresses of a host"])
PROPS["C22"] = dict(
        level="proof", proofs=["C22.vrs"], witness="C22.rs", budget=6, externs=("mio",),
        bounded="up to 2048 registrations on the real slab, and real delays for random attempt numbers",
        assumptions=["slab 0.4 hands out 0, 1, 2, ... while nothing is removed", "no more than 2048 connections are held, as documented"])
PROPS["C19"] = dict(
        level="proof", proofs=["C19.vrs"], witness="C19.rs", budget=4,
        bounded="random histories of edges and removals on the real matrix against ordered maps",
        assumptions=["hash maps, filter, map and collect behave as the standard library documents them, in any order",
                     "a clone of an edge's metadata stands for the original", "process::exit does not return"])

PROPS["C21"] = dict(
    level="proof", proofs=["C21.vrs"], witness="C21.rs", budget=8, hang=120, externs=("hopper",),
    bounded="random writes, truncations, replacements and removals of a real file under the real watcher, and the real source on three files",
    assumptions=["a read yields the bytes that follow those read before, up to the requested byte or the end, and fails only for reasons other than a missing file",
                 "an open file's metadata can be read and its position set", "a device and inode number stands for one file",
                 "paths are text; waiting for events does not fail; a line is shorter than 2^63 bytes",
                 "hash maps drain and insert as the standard library documents them, in any order"])

PROPS["C18"] = dict(
    level="proof", proofs=["C18.vrs"], witness="C18.rs", budget=6, hang=120, externs=("uuid", "rdkafka", "futures", "serde", "serde_derive", "log"),
    bounded="the real sink on a scripted message sender that publishes, fails in each way, loses or cancels messages, with real publishers waiting",
    assumptions=["librdkafka reports one result per message, and a message it returns with an error is the one sent",
                 "the broker's failures that may pass do pass eventually (or the flush keeps retrying): only partial correctness is shown for the loop",
                 "the bytes in flight are fewer than 2^64", "iter().filter_map(f).collect() runs f on each element in order and keeps what it yields",
                 "str::from_utf8 inverts UTF-8 encoding; hash maps iterate over their pairs, in any order"])

PROPS["C11"] = dict(
    level="proof", proofs=["C11.vrs"], witness="C11.rs", budget=6, externs=("chrono", "serde_json", "quantiles"),
    bounded="the real filter on random lines, fields, tags and texts (JSON, nearly JSON, deep JSON), against documents built by the witness",
    assumptions=["serde_json reads, builds and writes JSON as it documents; its maps, and the standard library's, list each entry once",
                 "times are written as chrono writes them", "tags are laid over as C03 proves"])
PROPS["C30"] = dict(
    level="proof", proofs=["C30.vrs"], witness="C30.rs", budget=14, hang=150, externs=(),
    bounded="random scripts of up to 60 operations and eight kinds of error, run by the real filter on random events, against a reference; up to 1050000 failing calls in a row",
    assumptions=["a script changes its payload by nothing but the payload functions, and keeps it for no longer than its call",
                 "Lua's interface moves values on and off its stack as its manual states; arguments are converted as it converts them",
                 "a payload function is called with its payload and with as many arguments as it reads",
                 "a refused argument ends the call (Lua's error) before anything of the payload has changed",
                 "an event's tags are changed as the tag functions under contract (shared with C03) change them"])
PROPS["C24"] = dict(
    level="proof", proofs=["C24.vrs"], witness="C24.rs", budget=10, hang=150,
    externs=("coco", "hopper", "mio", "lazy_static", "serde_derive", "serde", "log"),
    bounded="the real internal source, on its own thread with real forwards and random counts and points, for one or two of its seconds",
    assumptions=["AtomicUsize::swap reads and resets a counter in one step, load, store and fetch_sub do as named; coco's stack hands out once each point pushed",
                 "the names of counters in other modules are the cells those modules count in",
                 "mio's poll reports an event when, and only when, the thread is told to end",
                 "util::send delivers an event to every forward (C12 proves what the queues do)"])
PROPS["C31"] = dict(
    level="proof", proofs=["C31.vrs"], witness="C31.rs", budget=8, hang=60, externs=(),
    bounded="random configuration files with every kind of section, written in random order, and files with a setting of a wrong type, through the real parser",
    assumptions=["the toml crate reads a file's text as the tables, in the order of their names, and the values it states",
                 "a setting's number is one its type can hold (a port at most 65535, sizes not negative)",
                 "expect, unwrap and assert end the program when there is nothing: the configuration is refused",
                 "paths, regular expressions and environment variables are what the standard library and regex make of their texts"])
PROPS["C35"] = dict(
    level="proof", proofs=["C35.vrs", "C35b.vrs", "C23.vrs"], witness="C35.rs", budget=14, hang=200, rlimit=90,
    externs=(),
    bounded="the real binary started on configuration files of random small topologies (sinks, filters and sources that forward to each other, or to names that are not there), fed lines over loopback, then sent an interrupt or a termination signal: what it wrote, and whether and how it ended, against a reference",
    assumptions=["the configuration's components have the names of their sections (`well_named`): a section's name tells its kind, and no two components share one; that is what C31 proves of parse_config_file, whose result is taken here as it comes",
                 "hopper (C32): a queue is named, and an event sent is received once and in order",
                 "a filter's `new`, and the thread around its `run`, put exactly what they are given to work (for sinks and sources, RunnableSink and RunnableSource are proved to); what each component then does is C07 to C24, C30, C33, C34",
                 "a component's own `init` and `run` are called through its trait with what RunnableSink and RunnableSource hand over; the flush timer sends fewer than 2^64 pulses",
                 "a thread ends when its closure returns, and mio tells the poller of a registration that is made readable (src/thread.rs itself is proved: C23's proof is run here too)",
                 "chan_signal delivers the signals it was asked for; util::send is C12's",
                 "HashMap and HashSet: iteration yields every entry once, in some order",
                 "expect, unwrap and process::exit end the program: cernan refuses to run (that the queue of a forward is missing is what is proved of where it exits)",
                 "a configuration whose filters only feed each other in a circle is never told to end: nothing outside the circle forwards to it, and each waits for another's shutdown; the statement leaves such configurations out"])
PROPS["C15"] = dict(
    level="proof", proofs=["C15.vrs"], witness="C15.rs", budget=8, hang=150, externs=("quantiles", "serde_derive", "serde", "log"),
    bounded="random points over several flushes, their lines, and what loopback connections that fail and recover are sent, against a reference",
    assumptions=["bins are at least a second wide, and the host is not empty (Wavefront::init panics)",
                 "binary_search_by and hash maps behave as the standard library documents them, iterating in any order; no two series' hashes collide",
                 "histograms of one series share their bins (known finding C02/histogram-bins), whose bounds ascend",
                 "the sketches of the quantiles crate hold what they were given, and answer when they hold a sample; a summary holds one",
                 "floats that compare equal are written alike, as the standard library writes them; tags are laid over as C03 proves",
                 "TcpStream::write_all takes the whole text when it returns without an error"])
PROPS["C16"] = dict(
    level="proof", proofs=["C16.vrs"], witness="C16.rs", budget=6, hang=120, externs=("quantiles", "serde_derive", "serde", "chrono"),
    bounded="the real console sink on a recorded output, with random points and lines",
    assumptions=["numbers and times are written as the standard library and chrono write them",
                 "buckets hold what they were given (C01); tags are laid over as C03 proves"])
PROPS["C33"] = dict(
    level="proof", proofs=["C33.vrs"], witness="C33.rs", budget=6, hang=120,
    externs=("uuid", "serde_json", "serde_derive", "serde", "log", "chrono"),
    bounded="the real Elasticsearch sink with a scripted server in place of the elastic crate, with random lines, answers and failures",
    assumptions=["elasticsearch answers for the documents it was sent, once for each at most; fresh uuids differ",
                 "serde_json builds and writes documents as it documents; times are written as chrono writes them",
                 "tags are laid over as C03 proves"])
PROPS["C34"] = dict(
    level="proof", proofs=["C34.vrs"], witness="C34.rs", budget=6, hang=120, externs=("quantiles", "url", "serde_derive", "serde", "log"),
    bounded="the real InfluxDB sink with a scripted server in place of the reqwest crate, with random points and failures",
    assumptions=["binary_search_by behaves as the standard library documents it; finite floats are in order",
                 "equal floats have equal texts", "the HTTP client posts the body it is given and reports the server's status",
                 "the server accepts a payload eventually (or the flush keeps posting): only partial correctness is shown for the loop",
                 "numbers are written as the standard library writes them", "tags are laid over as C03 proves"])
PROPS["C17"] = dict(
    level="proof", proofs=["C17.vrs", "C17b.vrs"], witness="C17.rs", budget=8, hang=150, externs=("flate2", "quantiles", "serde_derive", "serde", "log"),
    bounded="random points through the real aggregation, its purge, its text and real scrapes over loopback HTTP, against a reference",
    assumptions=["binary_search_by and hash maps behave as the standard library documents them, iterating in any order",
                 "histograms of one name share their bins (known finding C02/histogram-bins)",
                 "the sketches of the quantiles crate hold what they were given, and answer when they hold a sample; the counts of a histogram's bins add up to at most usize::MAX",
                 "simple characters take a byte each in UTF-8", "numbers are written as the standard library writes them; tags are laid over as C03 proves",
                 "writing to memory and compressing succeed; tiny_http sends the response it is given, and a server's thread ends at a fault of the socket or of the poller",
                 "the lock protects the aggregation: what one holder leaves is what the next finds"])
