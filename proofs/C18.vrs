// C18: kafka delivery.
use vstd::prelude::*;
use vstd::multiset::*;
verus! {
global size_of usize == 8;
pub type Bytes = Seq<u8>;
pub type Heads = Map<Bytes, Bytes>;
#[verifier::external_body]
#[derive(Clone, Copy)]
pub struct Uuid { _p: () }
pub enum Encoding { Raw, JSON, Avro }
pub enum Valve { Open, Closed }
#[derive(Clone, Copy)]
pub enum RDKafkaError { Begin, BadMessage, BadCompression, BrokerDestroy, Fail, BrokerTransportFailure, CriticalSystemResource, Resolve, MessageTimedOut, PartitionEOF, UnknownPartition, FileSystem, UnknownTopic, AllBrokersDown, InvalidArgument, OperationTimedOut, QueueFull, ISRInsufficient, NodeUpdate, SSL, WaitingForCoordinator, UnknownGroup, InProgress, PreviousInProgress, ExistingSubscription, AssignPartitions, RevokePartitions, Conflict, State, UnknownProtocol, NotImplemented, Authentication, NoOffset, Outdated, TimedOutQueue, UnsupportedFeature, WaitCache, Interrupted, KeySerialization, ValueSerialization, KeyDeserialization, ValueDeserialization, Partial, ReadOnly, NoEnt, Underflow, End, Unknown, NoError, OffsetOutOfRange, InvalidMessage, UnknownTopicOrPartition, InvalidMessageSize, LeaderNotAvailable, NotLeaderForPartition, RequestTimedOut, BrokerNotAvailable, ReplicaNotAvailable, MessageSizeTooLarge, StaleControllerEpoch, OffsetMetadataTooLarge, NetworkException, GroupLoadInProgress, GroupCoordinatorNotAvailable, NotCoordinatorForGroup, InvalidTopic, MessageBatchTooLarge, NotEnoughReplicas, NotEnoughReplicasAfterAppend, InvalidRequiredAcks, IllegalGeneration, InconsistentGroupProtocol, InvalidGroupId, UnknownMemberId, InvalidSessionTimeout, RebalanceInProgress, InvalidCommitOffsetSize, TopicAuthorizationFailed, GroupAuthorizationFailed, ClusterAuthorizationFailed, InvalidTimestamp, UnsupportedSASLMechanism, IllegalSASLState, UnsupportedVersion, TopicAlreadyExists, InvalidPartitions, InvalidReplicationFactor, InvalidReplicaAssignment, InvalidConfig, NotController, InvalidRequest, UnsupportedForMessageFormat, PolicyViolation, OutOfOrderSequenceNumber, DuplicateSequenceNumber, InvalidProducerEpoch, InvalidTransactionalState, InvalidProducerIdMapping, InvalidTransactionTimeout, ConcurrentTransactions, TransactionCoordinatorFenced, TransactionalIdAuthorizationFailed, SecurityDisabled, OperationNotAttempted }
pub enum KafkaError { MessageProduction(RDKafkaError), Global(RDKafkaError), ClientCreation(String), NoMessageReceived, PartitionEOF(i32), Subscription(String) }

// ---- bytes and texts
pub uninterp spec fn utf8(s: Seq<char>) -> Bytes;
pub uninterp spec fn text_of(b: Bytes) -> Option<Seq<char>>;
#[verifier::external_body]
pub broadcast proof fn ax_utf8(s: Seq<char>) ensures text_of(#[trigger] utf8(s)) == Some(s) {}
pub struct Utf8Error {}
/// std::str::from_utf8, and the inverse of it
#[verifier::external_body]
pub fn from_utf8(v: &Vec<u8>) -> (r: Result<&str, Utf8Error>)
    ensures match r { Ok(t) => text_of(v@) == Some(t@) && utf8(t@) == v@, Err(_) => text_of(v@) is None }
{ unimplemented!() }
/// str::contains('\0')
#[verifier::external_body]
pub fn has_nul(s: &str) -> (r: bool) ensures r == s@.contains('\0') { unimplemented!() }
#[verifier::external_body]
pub fn bytes_of_str(s: &str) -> (r: Vec<u8>) ensures r@ == utf8(s@) { unimplemented!() }
#[verifier::external_body]
pub fn vec_of(s: &[u8]) -> (r: Vec<u8>) ensures r@ == s@ { unimplemented!() }
/// the slice of a text's bytes
#[verifier::external_body]
pub fn str_bytes(s: &String) -> (r: &[u8]) ensures r@ == utf8(s@) { unimplemented!() }
pub uninterp spec fn hex(n: u64) -> Seq<char>;
#[verifier::external_body]
pub fn hex_of(n: u64) -> (r: String) ensures r@ == hex(n) { unimplemented!() }
/// what librdkafka can name a header
pub open spec fn name_ok(k: Bytes) -> bool { text_of(k) is Some && !text_of(k)->0.contains('\0') }
/// the metadata that can be sent as headers
pub open spec fn sendable(meta: Heads, h: Heads) -> bool {
    (forall|k: Bytes| #[trigger] h.dom().contains(k) <==> meta.dom().contains(k) && name_ok(k))
    && forall|k: Bytes| #[trigger] h.dom().contains(k) ==> h[k] == meta[k]
}
pub open spec fn heads_of(m: Option<Metadata>) -> Heads { match m { Some(x) => x@, None => Map::empty() } }
/// HashMap<Vec<u8>, Vec<u8>>
#[verifier::external_body]
pub struct Metadata { _p: () }
impl View for Metadata { type V = Heads; uninterp spec fn view(&self) -> Heads; }
impl Metadata {
    #[verifier::external_body]
    pub fn default() -> (r: Metadata) ensures r@ == Map::<Bytes, Bytes>::empty() { unimplemented!() }
    #[verifier::external_body]
    pub fn insert(&mut self, k: Vec<u8>, v: Vec<u8>) ensures final(self)@ == old(self)@.insert(k@, v@) { unimplemented!() }
    /// in any order
    #[verifier::external_body]
    pub fn into_pairs(self) -> (r: Vec<(Vec<u8>, Vec<u8>)>)
        ensures
            forall|i: int| 0 <= i < r@.len() ==> self@.dom().contains((#[trigger] r@[i]).0@) && self@[r@[i].0@] == r@[i].1@,
            forall|k: Bytes| #[trigger] self@.dom().contains(k) ==> exists|i: int| 0 <= i < r@.len() && r@[i].0@ == k,
            forall|i: int, j: int| 0 <= i < j < r@.len() ==> r@[i].0@ != r@[j].0@,
    { unimplemented!() }
}

// ---- librdkafka
pub type HSeq = Seq<(Seq<char>, Bytes)>;
/// later headers of a name replace earlier ones
pub open spec fn hmap(h: HSeq) -> Heads
    decreases h.len()
{ if h.len() == 0 { Map::empty() } else { hmap(h.drop_last()).insert(utf8(h.last().0), h.last().1) } }
pub broadcast proof fn lemma_hmap(h: HSeq, x: (Seq<char>, Bytes))
    ensures #[trigger] hmap(h.push(x)) == hmap(h).insert(utf8(x.0), x.1)
{ assert(h.push(x).drop_last() =~= h); }
#[verifier::external_body]
pub struct OwnedHeaders { _p: () }
impl View for OwnedHeaders { type V = HSeq; uninterp spec fn view(&self) -> HSeq; }
impl Clone for OwnedHeaders { #[verifier::external_body] fn clone(&self) -> (r: Self) ensures r@ == self@ { unimplemented!() } }
impl OwnedHeaders {
    #[verifier::external_body]
    pub fn new() -> (r: OwnedHeaders) ensures r@ == Seq::<(Seq<char>, Bytes)>::empty() { unimplemented!() }
    /// panics on a name that holds a NUL
    #[verifier::external_body]
    pub fn add(self, name: &str, value: &Vec<u8>) -> (r: OwnedHeaders)
        requires !name@.contains('\0')
        ensures r@ == self@.push((name@, value@))
    { unimplemented!() }
    #[verifier::external_body]
    pub fn count(&self) -> (r: usize) ensures r == self@.len() { unimplemented!() }
    #[verifier::external_body]
    pub fn get(&self, i: usize) -> (r: Option<(&str, &[u8])>)
        ensures match r { Some(p) => i < self@.len() && p.0@ == self@[i as int].0 && p.1@ == self@[i as int].1, None => i >= self@.len() }
    { unimplemented!() }
}
#[verifier::external_body]
pub struct OwnedMessage { _p: () }
impl OwnedMessage {
    pub uninterp spec fn p(&self) -> Option<Bytes>;
    pub uninterp spec fn k(&self) -> Option<Bytes>;
    pub uninterp spec fn h(&self) -> Option<OwnedHeaders>;
    #[verifier::external_body]
    pub fn payload(&self) -> (r: Option<&[u8]>) ensures match r { Some(x) => self.p() == Some(x@), None => self.p() is None } { unimplemented!() }
    #[verifier::external_body]
    pub fn key(&self) -> (r: Option<&[u8]>) ensures match r { Some(x) => self.k() == Some(x@), None => self.k() is None } { unimplemented!() }
    #[verifier::external_body]
    pub fn headers(&self) -> (r: Option<&OwnedHeaders>) ensures match r { Some(x) => self.h() == Some(*x), None => self.h() is None } { unimplemented!() }
}
pub type PublishResult = Option<Result<(i32, i64), (KafkaError, OwnedMessage)>>;

// ---- what happens to a message
pub struct Msg { pub topic: Seq<char>, pub payload: Bytes, pub key: Bytes, pub heads: Heads }
pub enum Outcome {
    Published,
    /// the broker or librdkafka answered with an error that does not pass
    GivenUp,
    /// an error that may pass
    Retry,
    /// an error that may pass, but the message did not come back with it
    Lost,
}
pub struct Item { pub msg: Msg, pub conn: Option<Uuid> }
pub struct Done { pub item: Item, pub out: Outcome }
pub open spec fn retryable(e: KafkaError) -> bool {
    match e {
        KafkaError::MessageProduction(x) => {
            x is InvalidMessage || x is UnknownTopicOrPartition || x is LeaderNotAvailable || x is NotLeaderForPartition
            || x is RequestTimedOut || x is NetworkException || x is GroupLoadInProgress || x is GroupCoordinatorNotAvailable
            || x is MessageTimedOut || x is NotCoordinatorForGroup || x is NotEnoughReplicas || x is NotEnoughReplicasAfterAppend
            || x is NotController
        }
        _ => false,
    }
}
pub open spec fn outcome(r: PublishResult) -> Outcome {
    match r {
        None => Outcome::GivenUp,
        Some(Ok(_)) => Outcome::Published,
        Some(Err((e, m))) => if !retryable(e) { Outcome::GivenUp } else if m.p() is Some && m.k() is Some { Outcome::Retry } else { Outcome::Lost },
    }
}
/// a message that comes back is the one sent
pub open spec fn came_back(m: OwnedMessage, s: Msg) -> bool {
    (m.p() is Some ==> m.p()->0 == s.payload) && (m.k() is Some ==> m.k()->0 == s.key)
    && (match m.h() { Some(h) => hmap(h@), None => Map::empty() }) == s.heads
    && forall|k: Bytes| #[trigger] s.heads.dom().contains(k) ==> name_ok(k)
}
pub struct V {
    /// all that was handed to librdkafka
    pub sent: Seq<Item>,
    /// all results, in the order they were waited for
    pub done: Seq<Done>,
    pub acks: Multiset<Uuid>,
    pub published: int, pub retried: int, pub failed: int, pub lost: int,
}
#[verifier::external_body]
pub struct World { _p: () }
impl World { pub uninterp spec fn v(&self) -> V; }
pub open spec fn of(c: Option<Uuid>) -> Multiset<Uuid> { match c { Some(u) => Multiset::singleton(u), None => Multiset::empty() } }

#[verifier::external_body]
pub struct BoxedKafkaPublishable { _p: () }
impl BoxedKafkaPublishable {
    pub uninterp spec fn item(&self) -> Item;
    #[verifier::external_body]
    pub fn finalize(&mut self, w: &mut World) -> (r: PublishResult)
        ensures
            final(self).item() == old(self).item(),
            final(w).v() == (V { done: old(w).v().done.push(Done { item: old(self).item(), out: outcome(r) }), ..old(w).v() }),
            r is Some && r->0 is Err ==> came_back((r->0->Err_0).1, old(self).item().msg),
    { unimplemented!() }
    #[verifier::external_body]
    pub fn connection_id(&self) -> (r: Option<Uuid>) ensures r == self.item().conn { unimplemented!() }
}
#[verifier::external_body]
pub struct BoxedKafkaMessageSender { _p: () }
impl BoxedKafkaMessageSender {
    #[verifier::external_body]
    pub fn try_payload(&self, topic: &str, payload: &[u8], key: &[u8], metadata: Option<Metadata>, connection_id: Option<Uuid>, w: &mut World) -> (r: BoxedKafkaPublishable)
        ensures
            final(w).v() == (V { sent: old(w).v().sent.push(r.item()), ..old(w).v() }),
            r.item().conn == connection_id, r.item().msg.topic == topic@, r.item().msg.payload == payload@, r.item().msg.key == key@,
            sendable(heads_of(metadata), r.item().msg.heads),
    { unimplemented!() }
}
#[verifier::external_body]
pub struct Stats { _p: () }
impl Stats {
    #[verifier::external_body]
    pub fn increment_publish(&self, n: usize, w: &mut World) ensures final(w).v() == (V { published: old(w).v().published + n, ..old(w).v() }) { unimplemented!() }
    #[verifier::external_body]
    pub fn increment_retry(&self, n: usize, w: &mut World) ensures final(w).v() == (V { retried: old(w).v().retried + n, ..old(w).v() }) { unimplemented!() }
    #[verifier::external_body]
    pub fn increment_publish_failed(&self, n: usize, w: &mut World) ensures final(w).v() == (V { failed: old(w).v().failed + n, ..old(w).v() }) { unimplemented!() }
    #[verifier::external_body]
    pub fn increment_retry_failed(&self, n: usize, w: &mut World) ensures final(w).v() == (V { lost: old(w).v().lost + n, ..old(w).v() }) { unimplemented!() }
}
/// the acknowledgement bag's entry of a publisher that waits (C20 proves what `ack` and `with_props` do)
pub struct Props { pub n: u64 }
impl Props { pub fn ack(&mut self) requires old(self).n < 1000 ensures final(self).n == old(self).n + 1 { self.n = self.n + 1; } }
pub struct Bag {}
pub fn global_ack_bag() -> Bag { Bag {} }
pub open spec fn copies(u: Uuid, n: nat) -> Multiset<Uuid> decreases n { if n == 0 { Multiset::empty() } else { copies(u, (n - 1) as nat).insert(u) } }
impl Bag {
    #[verifier::external_body]
    pub fn give(&self, u: Uuid, p: Props, w: &mut World) ensures final(w).v() == (V { acks: old(w).v().acks.add(copies(u, p.n as nat)), ..old(w).v() }) { unimplemented!() }
}
#[verifier::external_body]
pub fn nth_mut<T>(v: &mut Vec<T>, i: usize) -> (r: &mut T)
    requires i < old(v)@.len()
    ensures *r == old(v)@[i as int], final(v)@ == old(v)@.update(i as int, *final(r))
{ unimplemented!() }

// ---- the accounts
pub open spec fn items(ms: Seq<BoxedKafkaPublishable>) -> Seq<Item> { ms.map_values(|m: BoxedKafkaPublishable| m.item()) }
pub open spec fn done_items(d: Seq<Done>) -> Seq<Item> { d.map_values(|x: Done| x.item) }
/// what is to be tried again
pub open spec fn again(d: Seq<Done>) -> Seq<Done>
    decreases d.len()
{ if d.len() == 0 { Seq::empty() } else { let r = again(d.drop_last()); if d.last().out is Retry || d.last().out is Lost { r.push(d.last()) } else { r } } }
pub open spec fn retries(d: Seq<Done>) -> Seq<Item>
    decreases d.len()
{ if d.len() == 0 { Seq::empty() } else { let r = retries(d.drop_last()); if d.last().out is Retry { r.push(d.last().item) } else { r } } }
/// acknowledgements due for what was published or given up
pub open spec fn settled(d: Seq<Done>) -> Multiset<Uuid>
    decreases d.len()
{ if d.len() == 0 { Multiset::empty() } else { let r = settled(d.drop_last()); if d.last().out is Published || d.last().out is GivenUp { r.add(of(d.last().item.conn)) } else { r } } }
/// and for what was lost
pub open spec fn losses(d: Seq<Done>) -> Multiset<Uuid>
    decreases d.len()
{ if d.len() == 0 { Multiset::empty() } else { let r = losses(d.drop_last()); if d.last().out is Lost { r.add(of(d.last().item.conn)) } else { r } } }
pub open spec fn count(d: Seq<Done>, o: Outcome) -> int
    decreases d.len()
{ if d.len() == 0 { 0 } else { count(d.drop_last(), o) + if d.last().out == o { 1int } else { 0 } } }
pub open spec fn conns(s: Seq<Option<Uuid>>) -> Multiset<Uuid>
    decreases s.len()
{ if s.len() == 0 { Multiset::empty() } else { conns(s.drop_last()).add(of(s.last())) } }
pub open spec fn bytes_in(ms: Seq<Item>) -> int
    decreases ms.len()
{ if ms.len() == 0 { 0 } else { bytes_in(ms.drop_last()) + ms.last().msg.payload.len() } }
pub broadcast proof fn lemma_push(d: Seq<Done>, x: Done)
    ensures
        #![trigger again(d.push(x))] #![trigger retries(d.push(x))] #![trigger settled(d.push(x))] #![trigger losses(d.push(x))] #![trigger done_items(d.push(x))]
        again(d.push(x)) == if x.out is Retry || x.out is Lost { again(d).push(x) } else { again(d) },
        retries(d.push(x)) == if x.out is Retry { retries(d).push(x.item) } else { retries(d) },
        settled(d.push(x)) == if x.out is Published || x.out is GivenUp { settled(d).add(of(x.item.conn)) } else { settled(d) },
        losses(d.push(x)) == if x.out is Lost { losses(d).add(of(x.item.conn)) } else { losses(d) },
        done_items(d.push(x)) == done_items(d).push(x.item),
{ assert(d.push(x).drop_last() =~= d); assert(done_items(d.push(x)) =~= done_items(d).push(x.item)); }
pub broadcast proof fn lemma_count(d: Seq<Done>, x: Done, o: Outcome)
    ensures #[trigger] count(d.push(x), o) == count(d, o) + if x.out == o { 1int } else { 0 }
{ assert(d.push(x).drop_last() =~= d); }
pub broadcast proof fn lemma_conns(s: Seq<Option<Uuid>>, x: Option<Uuid>)
    ensures #[trigger] conns(s.push(x)) == conns(s).add(of(x))
{ assert(s.push(x).drop_last() =~= s); }
pub proof fn lemma_bytes_in(s: Seq<Item>, x: Item)
    ensures bytes_in(s.push(x)) == bytes_in(s) + x.msg.payload.len()
{ assert(s.push(x).drop_last() =~= s); }
pub broadcast group books { lemma_push, lemma_count, lemma_conns, ax_utf8, lemma_hmap, vstd::multiset::group_multiset_axioms }
/// accounts of one run of results after another add up
pub proof fn lemma_join(a: Seq<Done>, b: Seq<Done>)
    ensures
        again(a + b) == again(a) + again(b), retries(a + b) == retries(a) + retries(b), settled(a + b) == settled(a).add(settled(b)),
        losses(a + b) == losses(a).add(losses(b)), done_items(a + b) == done_items(a) + done_items(b),
        forall|o: Outcome| #[trigger] count(a + b, o) == count(a, o) + count(b, o),
    decreases b.len()
{
    broadcast use books;
    if b.len() == 0 {
        assert(a + b =~= a);
        assert(again(a) + again(b) =~= again(a)); assert(retries(a) + retries(b) =~= retries(a));
        assert(settled(a).add(settled(b)) =~= settled(a)); assert(losses(a).add(losses(b)) =~= losses(a));
        assert(done_items(a) + done_items(b) =~= done_items(a));
    } else {
        let p = b.drop_last();
        lemma_join(a, p);
        assert((a + b).drop_last() =~= a + p);
        assert(a + b =~= (a + p).push(b.last()));
        assert(p.push(b.last()) =~= b);
        assert(again(a + b) =~= again(a) + again(b)); assert(retries(a + b) =~= retries(a) + retries(b));
        assert(settled(a + b) =~= settled(a).add(settled(b))); assert(losses(a + b) =~= losses(a).add(losses(b)));
        assert(done_items(a + b) =~= done_items(a) + done_items(b));
    }
}
pub open spec fn wraps(f: FailedMessageWrapper, d: Done) -> bool {
    f.connection_id == d.item.conn && came_back(f.message, d.item.msg)
    && (d.out is Retry <==> f.message.p() is Some && f.message.k() is Some)
}
pub open spec fn all_wrap(fs: Seq<FailedMessageWrapper>, d: Seq<Done>) -> bool {
    fs.len() == d.len() && forall|i: int| 0 <= i < d.len() ==> wraps(#[trigger] fs[i], d[i])
}

pub open spec fn waited(a: V, b: V, ms: Seq<Item>, r: Seq<FailedMessageWrapper>) -> bool {
    let d = b.done.skip(a.done.len() as int);
    &&& b == (V { done: a.done + d, acks: a.acks.add(settled(d)), published: a.published + count(d, Outcome::Published),
                  failed: a.failed + count(d, Outcome::GivenUp), retried: a.retried + again(d).len(), ..a })
    &&& done_items(d) == ms
    &&& all_wrap(r, again(d))
}
/// tried again under the same terms
pub open spec fn same_again(s: Seq<Item>, r: Seq<Item>, topic: Seq<char>) -> bool {
    s.len() == r.len() && forall|i: int| 0 <= i < r.len() ==> #[trigger] s[i] == (Item { msg: Msg { topic: topic, ..r[i].msg }, conn: r[i].conn })
}
pub open spec fn flushed(a: V, b: V, ms: Seq<Item>, topic: Seq<char>) -> bool {
    let d = b.done.skip(a.done.len() as int);
    let s = b.sent.skip(a.sent.len() as int);
    &&& flushed_by(a, b, d, s)
    // everything in flight was waited for, and what was tried again as well
    &&& done_items(d) == ms + s
    // exactly the failures that may pass were tried again, under the same terms
    &&& same_again(s, retries(d), topic)
}
pub open spec fn flushed_by(a: V, b: V, d: Seq<Done>, s: Seq<Item>) -> bool {
    b == (V { done: a.done + d, sent: a.sent + s, acks: a.acks.add(settled(d).add(losses(d))), published: a.published + count(d, Outcome::Published),
                  failed: a.failed + count(d, Outcome::GivenUp), retried: a.retried + again(d).len(), lost: a.lost + count(d, Outcome::Lost) })
}
pub proof fn lemma_again(d: Seq<Done>)
    ensures retries(again(d)) == retries(d), losses(again(d)) == losses(d), count(again(d), Outcome::Lost) == count(d, Outcome::Lost),
        forall|i: int| 0 <= i < again(d).len() ==> (#[trigger] again(d)[i]).out is Retry || again(d)[i].out is Lost,
    decreases d.len()
{
    broadcast use books;
    if d.len() > 0 { lemma_again(d.drop_last()); assert(d.drop_last().push(d.last()) =~= d); }
}

/*@ rewrites
rw `str::from_utf8($*x)` => `from_utf8($*x)`
rw `$n.contains('\0')` => `has_nul($n)`
rw `$k.as_bytes().to_vec()` => `bytes_of_str($k)`
rw `$v.to_vec()` => `vec_of($v)`
@*/
/*@ item src/sink/kafka.rs struct FailedMessageWrapper
@*/
impl FailedMessageWrapper {
/*@ fn src/sink/kafka.rs FailedMessageWrapper.payload
ret: r
spec:
    ensures match r { Some(x) => self.message.p() == Some(x@), None => self.message.p() is None }
@*/
/*@ fn src/sink/kafka.rs FailedMessageWrapper.key
ret: r
spec:
    ensures match r { Some(x) => self.message.k() == Some(x@), None => self.message.k() is None }
@*/
/*@ fn src/sink/kafka.rs FailedMessageWrapper.connection_id
ret: r
spec:
    ensures r == self.connection_id
@*/
/*@ fn src/sink/kafka.rs FailedMessageWrapper.metadata
ret: r
spec:
    ensures (r is Some) == (self.message.h() is Some), r is Some ==> r->0@ == hmap(self.message.h()->0@)
at fn-start:
    broadcast use books;
loop 1 for iter it:
    invariant
        hash_map@ == hmap(h@.take(it.index() as int)), it.seq().len() == h@.len(),
        forall|i: int| 0 <= i < it.seq().len() ==> it.seq()[i] == i,
at loop 1 start:
    broadcast use books;
    proof { assert(h@.take(idx as int + 1) =~= h@.take(idx as int).push(h@[idx as int])); }
at loop 1 after:
    proof { assert(h@.take(h@.len() as int) =~= h@); }
@*/
}
/*@ item src/sink/kafka.rs struct Kafka
rw `Box<StatsCollector + Send + Sync>` => `Stats`
@*/
impl Kafka {
    /// the bytes counted are those of the messages in flight
    pub open spec fn ok(&self) -> bool { self.message_bytes == bytes_in(items(self.messages@)) }
    pub open spec fn same_but_messages(&self, o: &Kafka) -> bool {
        self.topic_name == o.topic_name && self.max_message_bytes == o.max_message_bytes && self.flush_interval == o.flush_interval
    }
/*@ fn src/sink/kafka.rs Sink@Kafka.valve_state
ret: r
spec:
    requires self.ok()
    ensures r is Closed <==> bytes_in(items(self.messages@)) >= self.max_message_bytes
@*/
/*@ fn src/sink/kafka.rs Sink@Kafka.flush_interval
ret: r
spec:
    ensures r == Some(self.flush_interval)
@*/
/*@ fn src/sink/kafka.rs Sink@Kafka.deliver_raw
sig:
    fn deliver_raw(&mut self, order_by: u64, _encoding: Encoding, bytes: Vec<u8>, metadata: Option<Metadata>, connection_id: Option<Uuid>, w: &mut World)
rw `format!("{:X}", $*n)` => `hex_of($*n)`
rw `key.as_bytes()` => `str_bytes(&key)`
rw `&self.topic_name[..]` => `self.topic_name.as_str()`
rw `self.producer.try_payload($*a,)` => `self.producer.try_payload($*a, w)`
spec:
    requires old(self).ok(), old(self).message_bytes + bytes@.len() <= usize::MAX,
    ensures
        final(self).ok(), final(self).same_but_messages(old(self)),
        ({
            let it = final(w).v().sent.last();
            &&& final(w).v() == (V { sent: old(w).v().sent.push(it), ..old(w).v() })
            &&& items(final(self).messages@) == items(old(self).messages@).push(it)
            &&& it.conn == connection_id && it.msg.payload == bytes@ && it.msg.key == utf8(hex(order_by)) && it.msg.topic == old(self).topic_name@
            &&& sendable(heads_of(metadata), it.msg.heads)
        })
at fn-end:
    proof { let m = self.messages@; let i = items(old(self).messages@); lemma_bytes_in(i, m.last().item()); assert(items(m) =~= i.push(m.last().item())); }
@*/
/*@ fn src/sink/kafka.rs Kafka.acknowledge
sig:
    fn acknowledge(&self, connection_id: Option<Uuid>, w: &mut World)
rw `bag.with_props($c, |props| { $*b })` => `{ let mut props = Props { n: 0 }; $*b bag.give($c, props, w); proof { reveal_with_fuel(copies, 3); assert(copies($c, 1) =~= Multiset::singleton($c)); } }`
spec:
    ensures final(w).v() == (V { acks: old(w).v().acks.add(of(connection_id)), ..old(w).v() })
at fn-start:
    broadcast use books;
    proof { assert(w.v().acks.add(Multiset::empty()) =~= w.v().acks); }
@*/
/*@ fn src/sink/kafka.rs Kafka.await_inflight_messages
sig:
    fn await_inflight_messages(&mut self, w: &mut World) -> (r: Vec<FailedMessageWrapper>)
rw `let result = self.messages.iter_mut().filter_map(|$f| { $*b }).collect();` => `let mut kept: Vec<FailedMessageWrapper> = Vec::new(); let mut at: usize = 0; while at < self.messages.len() { let one = { let $f = nth_mut(&mut self.messages, at); $*b }; if let Some(x) = one { kept.push(x); } at = at + 1; } let result = kept;`
rw `for $f in self.messages.iter_mut() { $*b }` => `let mut at: usize = 0; while at < self.messages.len() { { let $f = nth_mut(&mut self.messages, at); $*b } at = at + 1; }`
rw `future.finalize()` => `future.finalize(w)`
rw `self.stats.increment_publish($*n)` => `self.stats.increment_publish($*n, w)`
rw `self.stats.increment_retry($*n)` => `self.stats.increment_retry($*n, w)`
rw `self.stats.increment_publish_failed($*n)` => `self.stats.increment_publish_failed($*n, w)`
rw `self.acknowledge($*n)` => `self.acknowledge($*n, w)`
spec:
    ensures
        items(final(self).messages@) == items(old(self).messages@), final(self).same_but_messages(old(self)), final(self).message_bytes == old(self).message_bytes,
        waited(old(w).v(), final(w).v(), items(old(self).messages@), r@)
at fn-start:
    let ghost v0 = w.v();
    let ghost ms = items(self.messages@);
    let ghost mut d: Seq<Done> = Seq::empty();
    broadcast use books;
    proof { assert(v0.done + d =~= v0.done); }
loop 1 while:
    invariant
        at <= self.messages@.len(), items(self.messages@) == ms, ms.len() == self.messages@.len(), self.same_but_messages(old(self)), self.message_bytes == old(self).message_bytes,
        w.v() == (V { done: v0.done + d, ..v0 }),
        done_items(d) == ms.take(at as int), d.len() == at,
        all_wrap(kept@, again(d)),
        inc_pub == count(d, Outcome::Published), inc_fail == count(d, Outcome::GivenUp), inc_retry == again(d).len(),
        inc_pub <= at, inc_fail <= at, inc_retry <= at,
        conns(ack_ids@) == settled(d),
    decreases self.messages@.len() - at
at loop 1 start:
    broadcast use books;
    let ghost wv = w.v();
at loop 1 end:
    proof {
        let x = w.v().done.last();
        assert(w.v().done == wv.done.push(x));
        assert(wv.done.push(x) =~= v0.done + d.push(x));
        assert(ms.take(at as int) =~= ms.take(at as int - 1).push(x.item));
        assert(items(self.messages@) =~= ms);
        d = d.push(x);
    }
at loop 1 after:
    let ghost v0d = w.v();
    proof { assert(ms.take(ms.len() as int) =~= ms); }
at loop 2 before:
    let ghost v1 = w.v(); let ghost ack_all = ack_ids@;
    proof { assert(v1.acks.add(Multiset::empty()) =~= v1.acks); assert(v1.done.skip(v0.done.len() as int) =~= d); assert(ack_ids@.take(0) =~= Seq::empty()); }
at loop 2 start:
    broadcast use books;
    let ghost ix = it.index() as int;
    let ghost all = it.seq();
at loop 2 end:
    proof { assert(all.take(ix + 1) =~= all.take(ix).push(all[ix])); assert(v1.acks.add(conns(all.take(ix))).add(of(all[ix])) =~= v1.acks.add(conns(all.take(ix)).add(of(all[ix])))); }
at loop 2 after:
    proof { assert(ack_all.take(ack_all.len() as int) =~= ack_all); }
loop 2 for iter it:
    invariant
        it.seq() == ack_all, items(self.messages@) == ms, self.same_but_messages(old(self)), self.message_bytes == old(self).message_bytes,
        w.v() == (V { acks: v1.acks.add(conns(it.seq().take(it.index() as int))), ..v1 }),
@*/
/*@ fn src/sink/kafka.rs Sink@Kafka.flush
attr: #[verifier::exec_allows_no_decreases_clause]
sig:
    fn flush(&mut self, w: &mut World)
rw `let new_messages = $v.iter().filter_map(|$f| { $*b }).collect();` => `let mut kept: Vec<BoxedKafkaPublishable> = Vec::new(); let mut at: usize = 0; while at < $v.len() { let one = { let $f = &$v[at]; $*b }; if let Some(x) = one { kept.push(x); } at = at + 1; } let new_messages = kept;`
rw `for $f in $v.iter() { $*b }` => `let mut at: usize = 0; while at < $v.len() { { let $f = &$v[at]; $*b } at = at + 1; }`
rw `self.await_inflight_messages()` => `self.await_inflight_messages(w)`
rw `self.producer.try_payload($*a,)` => `self.producer.try_payload($*a, w)`
rw `&self.topic_name[..]` => `self.topic_name.as_str()`
rw `self.stats.increment_retry_failed($*n)` => `self.stats.increment_retry_failed($*n, w)`
rw `self.acknowledge($*n)` => `self.acknowledge($*n, w)`
spec:
    requires old(self).ok(),
    ensures
        final(self).ok(), final(self).same_but_messages(old(self)),
        // nothing is in flight
        final(self).messages@.len() == 0,
        flushed(old(w).v(), final(w).v(), items(old(self).messages@), old(self).topic_name@),
at fn-start:
    let ghost v0 = w.v();
    let ghost ms = items(self.messages@);
    let ghost mut d: Seq<Done> = Seq::empty();
    let ghost mut s: Seq<Item> = Seq::empty();
    broadcast use books;
    proof {
        assert(v0.done + d =~= v0.done); assert(v0.sent + s =~= v0.sent); assert(v0.acks.add(settled(d)) =~= v0.acks);
        assert(done_items(d) + items(self.messages@) =~= ms + s);
        assert(w.v() == (V { done: v0.done + d, sent: v0.sent + s, acks: v0.acks.add(settled(d)), published: v0.published + count(d, Outcome::Published),
                  failed: v0.failed + count(d, Outcome::GivenUp), retried: v0.retried + again(d).len(), lost: v0.lost + count(d, Outcome::Lost) }));
    }
loop 1 while:
    invariant
        self.same_but_messages(old(self)),
        w.v() == (V { done: v0.done + d, sent: v0.sent + s, acks: v0.acks.add(settled(d)), published: v0.published + count(d, Outcome::Published),
                  failed: v0.failed + count(d, Outcome::GivenUp), retried: v0.retried + again(d).len(), lost: v0.lost + count(d, Outcome::Lost) }),
        done_items(d) + items(self.messages@) == ms + s,
        same_again(s, retries(d), self.topic_name@),
        conns(ack_ids@) == losses(d),
at loop 1 start:
    broadcast use books;
    let ghost va = w.v();
    let ghost flying = items(self.messages@);
    let ghost ack0 = conns(ack_ids@);
at loop 2 before:
    let ghost vr = w.v();
    let ghost dd = w.v().done.skip(va.done.len() as int);
    let ghost ag = again(dd);
    let ghost mut ss: Seq<Item> = Seq::empty();
    proof { lemma_again(dd); assert(vr.sent + ss =~= vr.sent); assert(ag.take(0) =~= Seq::empty()); assert(ack0.add(Multiset::empty()) =~= ack0); assert(items(kept@) =~= ss); }
loop 2 while:
    invariant
        at <= retry_payload_and_keys@.len(), all_wrap(retry_payload_and_keys@, ag), self.same_but_messages(old(self)),
        w.v() == (V { sent: vr.sent + ss, lost: vr.lost + count(ag.take(at as int), Outcome::Lost), ..vr }),
        ss == items(kept@),
        same_again(ss, retries(ag.take(at as int)), self.topic_name@),
        conns(ack_ids@) == ack0.add(losses(ag.take(at as int))),
        forall|i: int| 0 <= i < ag.len() ==> (#[trigger] ag[i]).out is Retry || ag[i].out is Lost,
    decreases retry_payload_and_keys@.len() - at
at loop 2 start:
    broadcast use books;
    let ghost k0 = kept@;
    let ghost wv = w.v();
    proof { assert(ag.take(at as int + 1) =~= ag.take(at as int).push(ag[at as int])); assert(wraps(retry_payload_and_keys@[at as int], ag[at as int])); }
at loop 2 end:
    proof {
        let x = ag[at as int - 1];
        if x.out is Retry {
            let y = w.v().sent.last();
            assert(y.msg.heads =~= x.item.msg.heads);
            assert(wv.sent.push(y) =~= vr.sent + ss.push(y));
            ss = ss.push(y);
            assert(items(kept@) =~= ss);
        } else {
            assert(ack0.add(losses(ag.take(at as int - 1))).add(of(x.item.conn)) =~= ack0.add(losses(ag.take(at as int - 1)).add(of(x.item.conn))));
        }
    }
at loop 1 end:
    proof {
        lemma_join(d, dd);
        assert(ag.take(ag.len() as int) =~= ag);
        assert((v0.done + d) + dd =~= v0.done + (d + dd));
        assert((v0.sent + s) + ss =~= v0.sent + (s + ss));
        assert(v0.acks.add(settled(d)).add(settled(dd)) =~= v0.acks.add(settled(d).add(settled(dd))));
        assert(done_items(d) + flying =~= ms + s);
        assert((done_items(d) + done_items(dd)) + ss =~= ms + (s + ss));
        d = d + dd; s = s + ss;
    }
at loop 3 before:
    let ghost v1 = w.v(); let ghost ack_all = ack_ids@;
    proof {
        assert(v1.acks.add(Multiset::empty()) =~= v1.acks); assert(ack_ids@.take(0) =~= Seq::empty());
        assert(v1.done.skip(v0.done.len() as int) =~= d); assert(v1.sent.skip(v0.sent.len() as int) =~= s);
        assert(done_items(d) + items(self.messages@) =~= done_items(d));
    }
loop 3 for iter it:
    invariant
        it.seq() == ack_all, self.same_but_messages(old(self)), self.message_bytes == 0, self.messages@.len() == 0,
        w.v() == (V { acks: v1.acks.add(conns(it.seq().take(it.index() as int))), ..v1 }),
at loop 3 start:
    broadcast use books;
    let ghost ix = it.index() as int;
    let ghost all = it.seq();
at loop 3 end:
    proof { assert(all.take(ix + 1) =~= all.take(ix).push(all[ix])); assert(v1.acks.add(conns(all.take(ix))).add(of(all[ix])) =~= v1.acks.add(conns(all.take(ix)).add(of(all[ix])))); }
at loop 3 after:
    proof {
        assert(ack_all.take(ack_all.len() as int) =~= ack_all);
        assert(v0.acks.add(settled(d)).add(losses(d)) =~= v0.acks.add(settled(d).add(losses(d))));
        assert(w.v().done.skip(v0.done.len() as int) =~= d); assert(w.v().sent.skip(v0.sent.len() as int) =~= s);
        assert(flushed_by(v0, w.v(), d, s));
    }
@*/
/*@ fn src/sink/kafka.rs Sink@Kafka.shutdown
attr: #[verifier::exec_allows_no_decreases_clause]
sig:
    fn shutdown(self, w: &mut World)
rw `self.flush()` => `self.flush(w)`
spec:
    requires self.ok()
    ensures flushed(old(w).v(), final(w).v(), items(self.messages@), self.topic_name@)
@*/
}

// ---- the real producer: what the contract of BoxedKafkaMessageSender and of BoxedKafkaPublishable stand for
pub struct Canceled {}
#[verifier::external_body]
pub struct DeliveryFuture { _p: () }
impl DeliveryFuture {
    pub uninterp spec fn msg(&self) -> Msg;
    /// what librdkafka reports of the message
    pub uninterp spec fn answer(&self) -> Result<Result<(i32, i64), (KafkaError, OwnedMessage)>, Canceled>;
    #[verifier::external_body]
    pub fn wait(&mut self) -> (r: Result<Result<(i32, i64), (KafkaError, OwnedMessage)>, Canceled>)
        ensures r == old(self).answer(), final(self).msg() == old(self).msg()
    { unimplemented!() }
}
pub struct FutureRecord { pub t: Ghost<Seq<char>>, pub p: Ghost<Option<Bytes>>, pub k: Ghost<Option<Bytes>>, pub h: Ghost<Heads> }
impl FutureRecord {
    #[verifier::external_body]
    pub fn to(t: &str) -> (r: FutureRecord) ensures r.t@ == t@, r.p@ is None, r.k@ is None, r.h@ == Map::<Bytes, Bytes>::empty() { unimplemented!() }
    #[verifier::external_body]
    pub fn payload(self, p: &[u8]) -> (r: FutureRecord) ensures r == (FutureRecord { p: Ghost(Some(p@)), ..self }) { unimplemented!() }
    #[verifier::external_body]
    pub fn key(self, k: &[u8]) -> (r: FutureRecord) ensures r == (FutureRecord { k: Ghost(Some(k@)), ..self }) { unimplemented!() }
    #[verifier::external_body]
    pub fn timestamp(self, t: i64) -> (r: FutureRecord) ensures r == self { unimplemented!() }
    #[verifier::external_body]
    pub fn headers(self, h: OwnedHeaders) -> (r: FutureRecord) ensures r == (FutureRecord { h: Ghost(hmap(h@)), ..self }) { unimplemented!() }
}
#[verifier::external_body]
pub fn current_time_millis() -> i64 { unimplemented!() }
#[verifier::external_body]
pub struct FutureProducer { _p: () }
/*@ item src/sink/kafka.rs struct KafkaPublishResult
@*/
impl KafkaPublishResult {
/*@ fn src/sink/kafka.rs KafkaPublishable@KafkaPublishResult.finalize
ret: r
rw `match self.inner { Some(ref mut $f) => ` => `match &mut self.inner { Some($f) => `
spec:
    ensures
        old(self).inner is Some ==> match old(self).inner->0.answer() { Ok(x) => r == Some(x), Err(_) => r is None },
        old(self).inner is None ==> r is None,
        final(self).connection_id == old(self).connection_id,
@*/
/*@ fn src/sink/kafka.rs KafkaPublishable@KafkaPublishResult.connection_id
ret: r
spec:
    ensures r == self.connection_id
@*/
}
pub fn boxed(r: KafkaPublishResult) -> (o: KafkaPublishResult) ensures o == r { r }
impl FutureProducer {
    /// the record, with what it was given
    #[verifier::external_body]
    pub fn send(&self, r: FutureRecord, block_ms: i64) -> (o: DeliveryFuture)
        requires r.p@ is Some, r.k@ is Some
        ensures o.msg() == (Msg { topic: r.t@, payload: r.p@->0, key: r.k@->0, heads: r.h@ })
    { unimplemented!() }
/*@ fn src/sink/kafka.rs KafkaMessageSender@FutureProducer.try_payload
sig:
    fn try_payload(&self, topic: &str, payload: &[u8], key: &[u8], metadata: Option<Metadata>, connection_id: Option<Uuid>) -> (r: KafkaPublishResult)
rw `Box::new($*x)` => `boxed($*x)`
rw `for ($k, $v) in m` => `for ($k, $v) in m.into_pairs()`
spec:
    ensures
        r.connection_id == connection_id, r.inner is Some,
        r.inner->0.msg().topic == topic@, r.inner->0.msg().payload == payload@, r.inner->0.msg().key == key@,
        sendable(heads_of(metadata), r.inner->0.msg().heads),
at fn-start:
    broadcast use books;
loop 1 for iter it:
    invariant
        forall|i: int| 0 <= i < it.seq().len() ==> m0.dom().contains((#[trigger] it.seq()[i]).0@) && m0[it.seq()[i].0@] == it.seq()[i].1@,
        forall|k: Bytes| #[trigger] m0.dom().contains(k) ==> exists|i: int| 0 <= i < it.seq().len() && it.seq()[i].0@ == k,
        forall|i: int, j: int| 0 <= i < j < it.seq().len() ==> it.seq()[i].0@ != it.seq()[j].0@,
        forall|i: int| 0 <= i < it.index() && name_ok((#[trigger] it.seq()[i]).0@) ==> hmap(headers@).dom().contains(it.seq()[i].0@),
        forall|k: Bytes| #[trigger] hmap(headers@).dom().contains(k) ==> m0.dom().contains(k) && name_ok(k) && hmap(headers@)[k] == m0[k],
at loop 1 before:
    let ghost m0 = m@;
at loop 1 start:
    broadcast use books;
@*/
}
fn main() {}
} // verus!
