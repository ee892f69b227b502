#!/usr/bin/env python3
"""The one source of properties.jsonl and MANIFEST.json.  Run it after a change here or in props.py."""
import json
import os
from props import PROPS

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def p(id, title, statement, over, text, why, files, mechanism, observe=()):
    return dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text), why_tests_cant=why,
                anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mechanism], observe_at=list(observe)))


CAT = [
 p("C01", "A point enters exactly one time bin of its series and is aggregated there",
   "Adding a point to the aggregation store either merges it into the one stored point of the same name and tags whose time bin (timestamp divided by the bin width) is the same, or stores a new point in time order; no other series or bin changes, a new bin of a persisting series starts from the value of the bin before it, and every bin width behaves alike. Reading the store yields every stored point exactly once, series by series, bins ascending, and the reported count is the number of points yielded. A reset keeps, for each persisting series, its latest point only, restamped to the current time, and drops every non-persisting point and series.",
   ["histories", "inputs"], "every sequence of adds and resets, every name, tag map, timestamp and kind of aggregation",
   "the tests try a few kinds of points and bin widths, and random points only for ordering; which bin a point lands in depends on the whole history",
   ["src/buckets.rs", "src/metric/telemetry.rs", "src/metric/mod.rs"],
   [("Buckets::add", "src/buckets.rs"), ("Buckets::reset", "src/buckets.rs"), ("Iter::next", "src/buckets.rs"), ("Telemetry::within / name_tag_hash", "src/metric/telemetry.rs")],
   ["Buckets::iter", "Buckets::count"]),
 p("C02", "Combining points aggregates values by their kind, losing none",
   "Combining two points of one series yields, for sums, the sum of both values; for sets, the later-added value; for histograms, bin counts, total and count added bin by bin; for summaries, all samples of both; the result takes the persistence of the later-added point and keeps the earlier one's name, tags and timestamp. Building a point from its parts keeps the given name, tags, timestamp and value, places a histogram sample in the first bin whose upper bound is not below it, and refuses to build without a name or a value.",
   ["inputs", "histories"], "every pair of points and every sequence of builder calls",
   "the tests combine a handful of constant points",
   ["src/metric/telemetry.rs"],
   [("AddAssign for Telemetry", "src/metric/telemetry.rs"), ("Value::add / insert", "src/metric/telemetry.rs"), ("SoftTelemetry::harden", "src/metric/telemetry.rs"), ("Telemetry::thaw", "src/metric/telemetry.rs")]),
 p("C03", "Tags of an event win over configured default tags, each key appears once",
   "Looking at the tags of a point or line together with a set of defaults shows every key of either exactly once, with the event's own value where it has the key and the default's value otherwise. Inserting a tag keeps the value already there only where documented (overlay replaces, insert replaces, removal removes just that key), no operation changes other keys, and two points with equal name and equal tags always compare and hash alike.",
   ["inputs", "histories"], "every pair of tag maps, in every iteration order the maps may have",
   "the tests use one or two tags; iteration order of the maps is not under their control",
   ["src/metric/mod.rs", "src/metric/telemetry.rs", "src/metric/logline.rs"],
   [("TagIter::next", "src/metric/mod.rs"), ("Telemetry::tags / overlay_tag / insert_tag / remove_tag / get_from_tags", "src/metric/telemetry.rs"), ("cmp_tagmap", "src/metric/mod.rs")]),
 p("C04", "A graphite line becomes exactly the point it states, or is refused",
   "Parsing graphite text yields, in order, one set-type point per 'name value timestamp' triple with exactly that name, number and timestamp and the source's own tags, and says so; text that is not a whole number of valid triples is refused and makes no panic. A refused line contributes no point to what is sent on, and does not disturb the lines before or after it.",
   ["inputs", "histories"], "every text, and every sequence of lines on one connection",
   "the tests parse one fixed well-formed text",
   ["src/protocols/graphite.rs", "src/source/graphite.rs"],
   [("parse_graphite", "src/protocols/graphite.rs"), ("GraphiteStreamHandler::handle_stream", "src/source/graphite.rs")]),
 p("C05", "A statsd packet becomes exactly the points it states, or is refused",
   "Parsing a statsd packet yields, in order, one point per line 'name:value|type[@rate]' with that name and the current time: counters sum and do not persist, gauges set and persist (sum when the value is signed), timers and histograms summarize, or use the first histogram mask matching the name; a sample rate scales the value by its inverse. A packet with a malformed line, or that is not text, is refused without a panic and nothing of it is sent on, then or later.",
   ["inputs", "histories", "configurations"], "every packet, every list of histogram masks, every sequence of packets",
   "the tests parse a dozen fixed packets",
   ["src/protocols/statsd.rs", "src/source/statsd.rs"],
   [("parse_statsd", "src/protocols/statsd.rs"), ("Statsd handle_datagrams", "src/source/statsd.rs")]),
 p("C06", "Points and lines survive the trip over cernan's native protocol",
   "Read back by the native source, what a flush of the native sink transmits is the same sequence of points and then the same sequence of lines: the same names, aggregation kinds, persistence and tags (the event's over the sink's), the same values or samples, timestamps to the second as far as milliseconds reach, the same paths and texts. (The protocol carries no fields and no histogram bins.) Every flush leaves as one complete payload, preceded by its exact length, on one connection; a connection that fails is given up and the same payload sent whole on another. From any peer the source sends on the points with a sample, later samples inserted into the first, and the lines of each payload, in order; bytes that are no payload end their connection and nothing is sent on for them.",
   ["inputs", "histories", "fault_sequences"], "every event sequence, every payload of a peer, every connection failure",
   "no test puts the native sink and the native source together",
   ["src/sink/native.rs", "src/source/native.rs", "src/protocols/native.rs"],
   [("Native::flush", "src/sink/native.rs"), ("NativeStreamHandler", "src/source/native.rs"), ("compute_size / write_to_with_cached_sizes", "src/protocols/native.rs")]),
 p("C07", "Length-prefixed payloads are read exactly, however the bytes arrive",
   "From a stream of length-prefixed payloads the reader yields exactly the payloads, in order and byte for byte, in whatever pieces the bytes arrive; it never loses or duplicates a byte across would-block answers, and bytes of a later payload wait for the next read. A payload longer than the configured maximum is refused before anything is allocated for it.",
   ["inputs", "schedules"], "every list of payloads and every way of cutting the bytes into reads",
   "the tests deliver whole payloads, or one fixed split",
   ["src/source/nonblocking.rs"],
   [("BufferedPayload::read", "src/source/nonblocking.rs"), ("write_all", "src/source/nonblocking.rs")]),
 p("C08", "An avro payload is forwarded byte for byte, and acknowledged when asked",
   "A well-formed avro payload is sent on as one raw event whose bytes, ordering key and metadata pairs are those of the payload; a malformed or truncated one is refused without a panic and nothing is sent on. A publisher that asks for acknowledgement gets its id back only after the event has been acknowledged downstream.",
   ["inputs"], "every byte string",
   "the tests use one valid file with and without metadata",
   ["src/source/avro.rs", "src/metric/ackbag.rs"],
   [("Header::from, Payload::from", "src/source/avro.rs"), ("handle_avro_payload", "src/source/avro.rs")]),
 p("C09", "The flush boundary filter holds events back for its tolerance, losing none",
   "Every event given to the flush boundary filter comes out exactly once: events carrying no timestamp pass at once; points and lines are held by timestamp, and all those of one timestamp come out at the first flush that makes more flushes than the tolerance since the first of them came in, ahead of that flush itself, timestamps ascending and in arrival order within a timestamp. At shutdown whatever is still held comes out before the shutdown does.",
   ["histories", "configurations"], "every event sequence and every tolerance",
   "the tests cover one or two events per case; draining and mixed events are not reached",
   ["src/filter/flush_boundary_filter.rs", "src/filter/mod.rs"],
   [("FlushBoundaryFilter::process / drain", "src/filter/flush_boundary_filter.rs")]),
 p("C10", "The delay filter drops exactly the events outside its window",
   "A point or line passes the delay filter unchanged exactly when its timestamp is within the tolerance of the current time, and is dropped otherwise; flushes, shutdowns and raw events always pass. No timestamp and no tolerance makes the filter panic.",
   ["inputs", "configurations"], "every timestamp, tolerance and clock value",
   "the tests try timestamps near the current time only",
   ["src/filter/delay_filter.rs", "src/time.rs"],
   [("DelayFilter::process", "src/filter/delay_filter.rs"), ("now / update_time", "src/time.rs")]),
 p("C11", "JSON-encoded lines carry their fields and text without loss",
   "A line given to the JSON encode filter comes out as one raw event of JSON encoding, without metadata or connection, whose bytes are one JSON object: the members of the line's text where parsing is configured and the text is a JSON object, the whole text as 'message' otherwise; the line's fields, under names the text's members do not have; and its time (brought within the calendar's ends), path and tags (the line's own value winning over the configured one) under names neither has. Every other event passes unchanged, and no line makes the filter panic or fail.",
   ["inputs", "configurations"], "every line, field, tag and configuration",
   "the tests use three fixed lines, and random texts without looking at fields or tags",
   ["src/filter/json_encode_filter.rs", "src/time.rs"],
   [("JSONEncodeFilter::process", "src/filter/json_encode_filter.rs"), ("merge_objects / json_to_object", "src/filter/json_encode_filter.rs"), ("calendar", "src/time.rs")]),
 p("C12", "A sink handles every event in order, flushes on schedule, outlives its sources",
   "A running sink hands every point, line and raw event it receives to its delivery, in order and exactly once, except that nothing is taken off the queue while its valve is closed, other than at a flush; it flushes exactly once for each flush event newer than the last one and due by its interval. It stops after as many shutdowns as it has sources, after one final shutdown call, and not before.",
   ["histories", "schedules"], "every event sequence, number of sources, flush interval and valve behaviour",
   "no test runs the loop",
   ["src/sink/mod.rs"],
   [("RunnableSink::consume", "src/sink/mod.rs")]),
 p("C13", "A filter forwards what it produces, in order, and shuts down after its sources",
   "A running filter gives every event it receives to its processing exactly once and in order, and sends on everything the processing emits, in order, to each of its outputs; an event it failed to process goes on behind what was emitted before the failure. It sends exactly one shutdown on, after every one of its sources has shut down and after everything else it had to send, and then stops.",
   ["histories"], "every event sequence, number of sources, and behaviour of the processing",
   "no test runs the loop",
   ["src/filter/mod.rs"],
   [("Filter::run", "src/filter/mod.rs")]),
 p("C14", "Fan-out sends every event to every output, once and in order",
   "Sending an event to a set of outputs puts it exactly once, unchanged, on each of them and in the order of the calls; the event is left out, and counted as dropped, only for an output that answers its queue is completely full, and every other output still gets it. Sending to no outputs is a no-op.",
   ["histories", "schedules"], "every event sequence, number of outputs and pattern of full queues",
   "no test covers fan-out or a full queue",
   ["src/util.rs"],
   [("send", "src/util.rs")]),
 p("C15", "A wavefront flush writes every held point, and zeros only inside gaps",
   "A point given to the wavefront sink within the age limit is worked into the time bins of its series, as the aggregation store documents; any other is dropped. A flush writes one text: for every point held, series after series and each in the order of time, exactly the lines of its kind (the value of a sum or set; the count in each bin of a histogram; the configured percentiles, the count and the mean of a summary), each with the point's name, time and tags (the sink's laid over as documented), and nothing else but padding. Kinds for which padding is configured, and no others, get two points of a single sample zero in each gap of more than one bin between neighbouring points of a series, and between the last time seen of the series in earlier flushes and its first newer point: one a second after the gap's start, one a second before its end, so that no zero falls in a second in which the series has a point. A point no newer than what was last seen of its series gets no padding and takes back nothing of what was seen. The text is written again, over new connections, until one takes it without an error, and then no more; then the bins are reset as documented. The valve is closed exactly while more than 10000 points are held, shutting down flushes, and no point makes the sink panic.",
   ["histories", "configurations", "fault_sequences"], "every history of points, flushes and failing connections",
   "the tests format fixed points and check padding on random points of one kind within one flush",
   ["src/sink/wavefront.rs", "src/buckets.rs"],
   [("Wavefront::format_stats, fmt_val", "src/sink/wavefront.rs"), ("Padding::next, end_of_sequence", "src/sink/wavefront.rs"), ("Wavefront::deliver, flush, valve_state", "src/sink/wavefront.rs")]),
 p("C16", "A flush of the console prints every line and point held, once and in order",
   "The console sink holds every line it was given, in order and unchanged, until a flush prints each exactly once, with its time (brought within the calendar's ends), path, text and tags (the line's own value winning over the sink's), and lets it go. The same flush prints every point of its time bins: for sums and sets the value, for histograms the count of every bin, for summaries the six quantiles it shows, each with the point's name, grouped by kind and in the bins' order; then the bins are reset. Shutting down flushes. The null sink holds nothing, and neither sink ever closes its valve. No line or point makes either panic.",
   ["histories", "inputs", "configurations"], "every sequence of lines, points and flushes",
   "no test looks at what the console prints, or covers the null sink",
   ["src/sink/console.rs", "src/sink/null.rs", "src/time.rs"],
   [("Console::deliver / deliver_line / flush", "src/sink/console.rs"), ("Null", "src/sink/null.rs"), ("calendar", "src/time.rs")]),
 p("C17", "Prometheus scrapes state each name's aggregate in well-formed text",
   "A point given to the prometheus sink within the age limit is worked into what is kept of its name, unless it is of another kind than the first point of that name: sums, sets and histograms combine for ever; a summary's samples stand by their seconds in a window in which at most the newest capacity_in_seconds of them stay, while its sum and count cover every sample ever given. A purge takes from a window exactly the samples further from the clock than its width. A scrape states every name that holds something exactly once, as that aggregate with its tags, in prometheus' text format: histogram bins cumulative, label values escaped, the name made of accepted characters only and left alone if it is already, and its TYPE line before its first line and never again; it leaves what is kept unchanged. The reply carries all of the page, compressed if so configured, with the headers to say so.",
   ["histories", "configurations", "inputs"], "every history of points, purges and scrapes, every name and label",
   "the tests cover sanitising by samples and aggregation on random points for some kinds",
   ["src/sink/prometheus.rs"],
   [("PrometheusAggr::insert, purge, reportable", "src/sink/prometheus.rs"), ("write_text, sanitize, escape", "src/sink/prometheus.rs"), ("PrometheusHandler::handle", "src/sink/prometheus.rs"), ("Prometheus::deliver, flush", "src/sink/prometheus.rs")]),
 p("C18", "Kafka delivery accounts for every message: published, retried, or given up",
   "A payload given to the kafka sink is handed to kafka at once, under the configured topic, with its bytes, the hexadecimal of its order as key, and its metadata as headers but for names a header cannot have, which never stop the sink. A flush waits for the result of every message in flight, and returns with none: each failure that may pass is tried again with the same payload, key, headers and publisher, unless the message did not come back with it; every other is given up. Each message is acknowledged to its publisher exactly once, when it is published or given up, and the counters of publications, retries, failures and impossible retries match. The valve is closed exactly while the bytes in flight reach the maximum.",
   ["fault_sequences", "histories"], "every sequence of messages and delivery results",
   "the tests script single failures",
   ["src/sink/kafka.rs"],
   [("Kafka::flush / await_inflight_messages", "src/sink/kafka.rs"), ("deliver_raw, valve_state", "src/sink/kafka.rs")]),
 p("C19", "The topology matrix states exactly the edges added",
   "The adjacency matrix that routing is derived from holds exactly the edges added and not popped since, with the metadata last given for each; the edge count of a node is the number of its edges; popping or filtering the edges of a node yields exactly its edges that qualify. Asking about an unknown node answers as for a node without edges and never panics. When cernan wires itself up, a component gets exactly one edge per configured forward, carrying that forward's queue, or cernan refuses to start.",
   ["histories"], "every sequence of edge additions and removals",
   "the tests add one or two edges",
   ["src/matrix.rs"],
   [("Adjacency::add_asymmetric_edges / edges / pop / filter_nodes", "src/matrix.rs")]),
 p("C20", "A waiting publisher is released exactly when its event is acknowledged",
   "Waiting on a registered key ends only once that key has been acknowledged or removed, and ends at once for an unknown key; acknowledging one key touches no other, and counts every acknowledgement. While it waits it sleeps at least 5 ms at first, doubling up to 250 ms.",
   ["histories", "schedules"], "every sequence of prepare, acknowledge, remove and wait",
   "the tests use one key and one acknowledgement",
   ["src/metric/ackbag.rs"],
   [("SyncAckBag::wait_for_callback / with_props / prepare_wait", "src/metric/ackbag.rs")]),
 p("C21", "Tailing a file yields its lines whole, once and in order",
   "From the moment a file is followed (from its end when it is there as cernan starts, else from its start once it is), the non-empty lines of text written to it are yielded exactly once, in order and without their line end, however the writes cut them; a line whose end is not written yet waits for it, or for the file to be truncated, replaced or removed. A line that is not valid UTF-8 is refused without disturbing others. When another file is put in its place, the lines of the old file come before those of the new one, which is read from its start; a file seen to have shrunk is read again from its start. The file source sends every line read as a log line of that path, in order, before it waits again or shuts down, and keeps following each file that is not gone.",
   ["histories", "schedules"], "every sequence of writes, rotations and reads",
   "the tests append whole random lines of letters",
   ["src/source/file/file_watcher.rs", "src/source/file/file_server.rs"],
   [("FileWatcher::read_line", "src/source/file/file_watcher.rs"), ("FileServer::run", "src/source/file/file_server.rs")]),
 p("C22", "Connection tokens are unique while held; retry delays stay within bounds",
   "Up to the 2048 connections it is made for, registering a connection hands out a token distinct from every other token handed out and from the reserved system token, looking a token up yields the connection registered for it, and the count is the number registered. The wait between delivery attempts is zero for attempt 0, never shrinks as the attempt number grows and never exceeds 512 ms.",
   ["histories", "inputs"], "every sequence of registrations and every attempt number",
   "no test exhausts the token space or large attempt numbers",
   ["src/util.rs", "src/time.rs"],
   [("TokenSlab", "src/util.rs"), ("delay", "src/time.rs")]),
 p("C23", "A source told to end announces it once, last, after its connections ended",
   "Told to shut down, a source sends its forwards one Shutdown, as the last event it ever sends: a TCP source (graphite, native, avro) first tells the handler of every connection it accepted to end and waits for each, whether the handler is running, idle, done or has crashed; every connection is accepted and served by a handler of its own; finished handlers are collected without waiting for running ones.",
   ["schedules", "histories"], "every number and state of connections, crashes of handlers included, and every order of their ends and of the source's events",
   "tests never shut a source down, let alone with connections open or handlers crashed",
   ["src/thread.rs", "src/source/tcp.rs", "src/source/statsd.rs"],
   [("TCP::accept_loop", "src/source/tcp.rs"), ("TCP::spawn_stream_handlers", "src/source/tcp.rs"), ("ThreadPool", "src/thread.rs"), ("ThreadHandle::join", "src/thread.rs"), ("Statsd::run", "src/source/statsd.rs")]),
 p("C24", "Cernan's own counters are reported in full, each count once",
   "Every second the internal source sends every forward one point for each of cernan's counters that is not zero, under that counter's documented name, its value what was counted since the counter was last looked at and its kind a sum, and resets the counter in the same step, so that no count is lost or reported twice; the two levels (stored wavefront aggregations, reportable prometheus aggregations) go out as sets. Then every point other parts reported since, each once and as reported: its name, its value as a sum, and its tags, a later value of a tag name winning. Without forwards reported points are thrown away, not kept. Told to end, the source announces it as the last event it sends.",
   ["schedules", "histories", "inputs"], "every history of counts and reported points, and every moment at which the source looks",
   "no test runs the internal source; a counter read without being reset, left out, or under another's name shows only over several of its seconds",
   ["src/source/internal.rs"],
   [("Internal::run", "src/source/internal.rs"), ("atom_telem!", "src/source/internal.rs"), ("atom_set_telem!", "src/source/internal.rs"), ("report_full_telemetry", "src/source/internal.rs")]),
 p("C30", "User Lua scripts see and change exactly the events they are given",
   "A programmable filter's script is given the one point or line that arrived, or nothing on a tick. Each payload function reads, changes or adds exactly the event its arguments name (counted from one up, or from minus one down from the last) and leaves all others as they are, in place. When the script is done, what its payload then holds is emitted, lines first, then points, each in order; what the script left alone comes out unchanged. An error of the script, an index that names no event among them, or a function it lacks, yields one failure count and nothing else, and no number of failures affects a later call. Raw events and shutdowns pass as they are; a flush is passed on once, behind what the tick added, and a repeated one is dropped.",
   ["programs", "inputs", "histories"], "every script, every sequence of events given to it, and every sequence of payload calls it makes", "the tests run a few fixed scripts on one event each, so neither what many calls leave behind nor most of the functions are seen",
   ["src/filter/programmable_filter.rs"],
   [("ProgrammableFilter::process", "src/filter/programmable_filter.rs"), ("run_lua_func", "src/filter/programmable_filter.rs"), ("Payload::lua_*", "src/filter/programmable_filter.rs"), ("idx", "src/filter/programmable_filter.rs"), ("PAYLOAD_LIB", "src/filter/programmable_filter.rs")]),
 p("C31", "A configuration file yields the topology it states",
   "A configuration file is read as the sources, filters and sinks it declares and no others: each under its name, with the settings and forwards it states, and the default for every setting it leaves out (a sink's flush interval is then the global one, in ticks of a hundredth of a second). Global tags, those taken from the environment among them, reach every sink and filter that adds tags. A kafka sink without topic or brokers, a delay or flush boundary filter without tolerance, a programmable filter without script, a followed file without path, and a source or kafka sink that says it is not enabled are left out. Statsd's histogram masks are tried from the last of the mappings' names to the first. A file with a setting of the wrong type, a mask that is no regular expression, or a statsd, graphite or avro source without forwards is refused. Numbers that do not fit their setting are not covered.",
   ["configurations"], "every configuration file", "the tests parse one section each, with a few of its settings",
   ["src/config.rs"], [("parse_config_file", "src/config.rs"), ("parse_flush_interval", "src/config.rs"), ("Args::default", "src/config.rs"), ("the Default of every component's configuration", "src/sink, src/source")]),
 p("C32", "No event is lost between processes when a queue spills to disk",
   "Every event accepted by a queue is received exactly once and in order, also when it spilled to disk or the process was restarted.",
   ["crash_points", "histories"], "every history and crash point", "no test spills a queue",
   ["src/bin/cernan.rs"], [("hopper::channel", "src/bin/cernan.rs")]),
 p("C33", "Elasticsearch lines are held until stored or refused too often",
   "A line given to the elasticsearch sink is held, unchanged and in order, under an id of its own. A flush of held lines is one bulk request that states every held line once, in order: index (from the line's time and the configured prefix), type and id, then a document of its id, path, text and time, its tags (the line's own value winning over the sink's) and its fields. Each line the server answers to have stored is let go; each it answers to have failed is let go if it has now failed more often than the configured limit, and otherwise stays, its place, id and text unchanged; every other line stays as it was, and all do when the request, or its answer as a whole, fails. The valve is closed exactly while more than 10000 lines are held, shutting down flushes, and no answer for a line that was sent makes the sink panic.",
   ["fault_sequences", "histories", "inputs"], "every sequence of lines, bulk answers and failures",
   "the tests need an elasticsearch server and see only accepted lines",
   ["src/sink/elasticsearch.rs", "src/time.rs"],
   [("Elasticsearch::flush", "src/sink/elasticsearch.rs"), ("Elasticsearch::bulk_body", "src/sink/elasticsearch.rs"), ("Elasticsearch::deliver_line / valve_state", "src/sink/elasticsearch.rs")]),
 p("C34", "InfluxDB is posted every held point, the same payload until it is accepted",
   "The influxdb sink holds every point it was given until a flush has posted it. What a flush posts states every held point, in order, in line protocol: the name (with '.' and the percentile for each of the six percentiles of a summary, '.le_' and the bound for each bin of a histogram), its tags together with the sink's (the point's own value winning), the value, and the time in nanoseconds, kept within the ends of 64 bits; values InfluxDB cannot store (NaN and the infinities) are left out. The same payload is posted again, to the configured database, until the server accepts it; only then are the points let go, and no other request is made. The valve is closed exactly while more than 100000 points are held, shutting down flushes, and no point or answer makes the sink panic.",
   ["fault_sequences", "histories", "inputs"], "every sequence of points, flushes, answers and failures",
   "the tests format a few fixed points and never flush",
   ["src/sink/influxdb.rs"],
   [("InfluxDB::flush", "src/sink/influxdb.rs"), ("InfluxDB::format_stats", "src/sink/influxdb.rs"), ("get_from_cache", "src/sink/influxdb.rs")]),
 p("C35", "cernan runs the topology it is configured with, and drains it when told to end",
   "Started with a configuration, cernan gives every configured sink and filter a queue of its own, read by it alone, and starts every configured component once, with its own settings and the queues of exactly its forwards, each once; a sink or filter is told which components forward to it (one that it forwards to in turn left out). A forward that names no configured sink or filter makes cernan refuse to run. Flush pulses, numbered from one up and sent after every hundredth of a second slept, go to the queue of everything a source forwards to, once each. On an interrupt or a termination signal every source is told to end and waited for; what no component forwards to is told then; and then every sink and filter is waited for. So where the forwards have no circle each ends only after everything queued before it has been worked through, and then the process ends.",
   ["configurations", "schedules"], "every configuration and every moment of the signal", "no test starts the binary",
   ["src/bin/cernan.rs", "src/config.rs", "src/thread.rs"], [("main", "src/bin/cernan.rs"), ("populate_forwards / join_all", "src/bin/cernan.rs"), ("Adjacency", "src/matrix.rs")]),
]

NA = {
 "C32": "the guarantee is hopper's (a dependency), about files and crashes; contracts over cernan's code can only assume it, as C12 to C14 do",
}

TECH = "deductive verification (Verus contracts on the functions extracted from /repo on every run; bounded witness search replays failures)"


def main():
    with open(V + "/properties.jsonl", "w") as f:
        for c in CAT:
            f.write(json.dumps(c) + "\n")
    checks, na = [], []
    for c in CAT:
        i = c["id"]
        if i in PROPS and not PROPS[i].get("off"):
            s = PROPS[i]
            note = s.get("note") or ("every obligation generated from the current text of the functions under contract is discharged by Verus/Z3; assumes: "
                                     + "; ".join(s.get("assumptions", [])) + ". " + ("Bounded stand-in for what is outside the verifier's reach, not counted as proved: " + s["bounded"] if s.get("bounded") else ""))
            checks.append(dict(property=i, quick_cmd="python3 tools/check.py %s" % i,
                               thorough_cmd="python3 tools/check.py %s --tier thorough" % i,
                               evidence_file="evidence/%s.json" % i, technique=s.get("technique", TECH), level=s["level"], level_note=note))
        else:
            na.append(dict(property=i, reason=NA.get(i, "no check built yet")))
    m = dict(version=1, setup_cmd="python3 tools/build.py",
             hooks=dict(guard="cernan_verif", enable="rustc --cfg cernan_verif (tools/build.py)", source_commits=[]),
             checks=checks, not_applicable=na,
             notes="Each check generates its Verus input from proofs/<id>.vrs and /repo's working tree, verifies it, and searches for failing inputs against the real code with witness/<id>.rs. See DESIGN.md.")
    json.dump(m, open(V + "/MANIFEST.json", "w"), indent=1)


if __name__ == "__main__":
    main()
