// C08: avro payloads.
use vstd::prelude::*;
verus! {
global size_of usize == 8;
#[verifier::external_body]
pub struct LogLine { _p: () }
#[verifier::external_body]
pub struct Telemetry { _p: () }
#[verifier::external_body]
#[derive(Clone, Copy)]
pub struct Uuid { _p: () }
#[derive(Debug)]
pub struct IoError {}

/// util::HashMap<Vec<u8>, Vec<u8>>
#[verifier::external_body]
pub struct Metadata { _p: () }
impl View for Metadata {
    type V = Map<Seq<u8>, Seq<u8>>;
    uninterp spec fn view(&self) -> Map<Seq<u8>, Seq<u8>>;
}
impl Metadata {
    #[verifier::external_body]
    pub fn default() -> (r: Metadata) ensures r@ == Map::<Seq<u8>, Seq<u8>>::empty() { unimplemented!() }
    #[verifier::external_body]
    pub fn insert(&mut self, k: Vec<u8>, v: Vec<u8>) ensures final(self)@ == old(self)@.insert(k@, v@) { unimplemented!() }
}
/*@ item src/metric/event.rs enum Encoding
@*/
/*@ item src/metric/event.rs enum Event
rw `sync::Arc<Option<$*a>>` => `Box<$*a>`
@*/
pub mod metric { pub use super::{Event, Encoding}; }

// ---- std::io::Cursor over bytes
pub open spec fn be2(s: Seq<u8>) -> nat { (s[0] as nat) * 256 + s[1] as nat }
pub open spec fn be4(s: Seq<u8>) -> nat { be2(s) * 65536 + be2(s.skip(2)) }
pub open spec fn be8(s: Seq<u8>) -> nat { be4(s) * 0x1_0000_0000 + be4(s.skip(4)) }
/// the eight bytes which state a number
pub uninterp spec fn bytes8(n: u64) -> Seq<u8>;
#[verifier::external_body]
pub struct Cursor { _p: () }
impl Cursor {
    pub uninterp spec fn bytes(&self) -> Seq<u8>;
    pub uninterp spec fn pos(&self) -> nat;
    pub open spec fn rest(&self) -> Seq<u8> { self.bytes().skip(self.pos() as int) }
    pub open spec fn at(&self) -> bool { self.pos() <= self.bytes().len() }
    /// `n` bytes further on
    pub open spec fn moved(&self, from: Cursor, n: int) -> bool {
        self.bytes() == from.bytes() && self.pos() == from.pos() + n && self.at()
    }
    #[verifier::external_body]
    pub fn new(v: Vec<u8>) -> (r: Cursor) ensures r.bytes() == v@, r.pos() == 0 { unimplemented!() }
    #[verifier::external_body]
    pub fn u8(&mut self) -> (r: Result<u8, IoError>)
        requires old(self).at()
        ensures final(self).at(), final(self).bytes() == old(self).bytes(), match r {
            Ok(x) => old(self).rest().len() >= 1 && final(self).moved(*old(self), 1) && x == old(self).rest()[0],
            Err(_) => old(self).rest().len() < 1,
        }
    { unimplemented!() }
    #[verifier::external_body]
    pub fn u16(&mut self) -> (r: Result<u16, IoError>)
        requires old(self).at()
        ensures final(self).at(), final(self).bytes() == old(self).bytes(), match r {
            Ok(x) => old(self).rest().len() >= 2 && final(self).moved(*old(self), 2) && x == be2(old(self).rest()),
            Err(_) => old(self).rest().len() < 2,
        }
    { unimplemented!() }
    #[verifier::external_body]
    pub fn u32(&mut self) -> (r: Result<u32, IoError>)
        requires old(self).at()
        ensures final(self).at(), final(self).bytes() == old(self).bytes(), match r {
            Ok(x) => old(self).rest().len() >= 4 && final(self).moved(*old(self), 4) && x == be4(old(self).rest()),
            Err(_) => old(self).rest().len() < 4,
        }
    { unimplemented!() }
    #[verifier::external_body]
    pub fn u64(&mut self) -> (r: Result<u64, IoError>)
        requires old(self).at()
        ensures final(self).at(), final(self).bytes() == old(self).bytes(), match r {
            Ok(x) => old(self).rest().len() >= 8 && final(self).moved(*old(self), 8) && x == be8(old(self).rest()),
            Err(_) => old(self).rest().len() < 8,
        }
    { unimplemented!() }
    #[verifier::external_body]
    pub fn read_exact(&mut self, v: &mut Vec<u8>) -> (r: Result<(), IoError>)
        requires old(self).at()
        ensures final(self).at(), final(self).bytes() == old(self).bytes(), final(v)@.len() == old(v)@.len(), match r {
            Ok(_) => old(self).rest().len() >= old(v)@.len() && final(self).moved(*old(self), old(v)@.len() as int)
                && final(v)@ == old(self).rest().take(old(v)@.len() as int),
            Err(_) => old(self).rest().len() < old(v)@.len(),
        }
    { unimplemented!() }
    /// of bytes in memory, this never fails
    #[verifier::external_body]
    pub fn read_to_end(&mut self, v: &mut Vec<u8>) -> (r: Result<usize, IoError>)
        requires old(self).at()
        ensures r is Ok, final(v)@ == old(v)@ + old(self).rest(), final(self).moved(*old(self), old(self).rest().len() as int)
    { unimplemented!() }
    #[verifier::external_body]
    pub fn put8(&mut self, n: u64) requires old(self).pos() == old(self).bytes().len() ensures final(self).bytes() == old(self).bytes() + bytes8(n), final(self).pos() == final(self).bytes().len() { unimplemented!() }
    #[verifier::external_body]
    pub fn get_ref(&self) -> (r: &Vec<u8>) ensures r@ == self.bytes() { unimplemented!() }
}
#[verifier::external_body]
pub fn zeroes(n: usize) -> (r: Vec<u8>) ensures r@.len() == n { unimplemented!() }
#[verifier::external_body]
pub fn some_text() -> String { unimplemented!() }

/// a complete avro container (serde_avro decides)
pub uninterp spec fn avro_ok(b: Seq<u8>) -> bool;
#[verifier::external_body]
pub fn container(b: &Vec<u8>) -> (r: Result<(), IoError>) ensures r is Ok == avro_ok(b@) { unimplemented!() }

/*@ item src/source/avro.rs const Header.CONTROL_SYNC
@*/
/*@ item src/source/avro.rs struct Header
attr: #[derive(Clone, Copy)]
@*/
/*@ item src/source/avro.rs enum Payload
@*/

// ---- what a payload means
pub open spec fn pairs(b: Seq<u8>, n: nat, m: Map<Seq<u8>, Seq<u8>>) -> Option<(Map<Seq<u8>, Seq<u8>>, Seq<u8>)>
    decreases n
{
    if n == 0 { Some((m, b)) }
    else if b.len() < 1 { None }
    else {
        let kl = b[0] as int;
        let b1 = b.skip(1);
        if b1.len() < kl { None }
        else {
            let b2 = b1.skip(kl);
            if b2.len() < 2 { None }
            else {
                let vl = be2(b2) as int;
                let b3 = b2.skip(2);
                if b3.len() < vl { None }
                else { pairs(b3.skip(vl), (n - 1) as nat, m.insert(b1.take(kl), b3.take(vl))) }
            }
        }
    }
}
pub struct Stated {
    pub version: nat,
    pub sync: bool,
    pub id: nat,
    pub order_by: nat,
    pub metadata: Option<Map<Seq<u8>, Seq<u8>>>,
    pub blob: Seq<u8>,
}
pub open spec fn meta_and_blob(version: nat, b: Seq<u8>) -> Option<(Option<Map<Seq<u8>, Seq<u8>>>, Seq<u8>)> {
    if version < 2 { Some((None, b)) }
    else if b.len() < 1 { None }
    else if b[0] == 0 { Some((None, b.skip(1))) }
    else {
        match pairs(b.skip(1), b[0] as nat, Map::empty()) {
            Some((m, rest)) => Some((Some(m), rest)),
            None => None,
        }
    }
}
/// 4 bytes version, 4 bytes control (bit 0: an acknowledgement is wanted), 8 bytes id, 8 bytes ordering key;
/// from version 2 on a count and so many pairs; the rest is the avro container
pub open spec fn stated(b: Seq<u8>) -> Option<Stated> {
    if b.len() < 24 { None }
    else {
        match meta_and_blob(be4(b), b.skip(24)) {
            None => None,
            Some((m, blob)) => if avro_ok(blob) {
                Some(Stated { version: be4(b), sync: be4(b.skip(4)) % 2 == 1, id: be8(b.skip(8)), order_by: be8(b.skip(16)), metadata: m, blob })
            } else { None },
        }
    }
}
pub open spec fn meta_view(m: Option<Metadata>) -> Option<Map<Seq<u8>, Seq<u8>>> {
    match m { Some(m) => Some(m@), None => None }
}
impl Header {
    pub open spec fn is(self, b: Seq<u8>) -> bool {
        self.version == be4(b) && self.control == be4(b.skip(4)) && self.id == be8(b.skip(8)) && self.order_by == be8(b.skip(16))
    }
}
impl Payload {
    pub open spec fn is(self, b: Seq<u8>) -> bool {
        match self {
            Payload::Valid { header, metadata, avro_blob } => b.len() >= 24 && header.is(b) && avro_ok(avro_blob@)
                && meta_and_blob(be4(b), b.skip(24)) == Some((meta_view(metadata), avro_blob@)),
            Payload::Invalid(_) => stated(b) is None,
        }
    }
}
pub proof fn lemma_skips(b: Seq<u8>)
    ensures forall|i: int, j: int| 0 <= i && 0 <= j && i + j <= b.len() ==> #[trigger] b.skip(i).skip(j) == b.skip(i + j)
{
    assert forall|i: int, j: int| 0 <= i && 0 <= j && i + j <= b.len() implies #[trigger] b.skip(i).skip(j) == b.skip(i + j) by { assert(b.skip(i).skip(j) =~= b.skip(i + j)); }
}

/*@ rewrites
rw `&mut Cursor<Vec<u8>>` => `&mut Cursor`
rw `$c.read_u8()` => `$c.u8()`
rw `$c.read_u16::<BigEndian>()` => `$c.u16()`
rw `$c.read_u32::<BigEndian>()` => `$c.u32()`
rw `$c.read_u64::<BigEndian>()` => `$c.u64()`
rw `vec![0; $*n]` => `zeroes($*n)`
rw `format!($*a)` => `some_text()`
rw `$*s.to_string()` => `some_text()`
rw `io::Error` => `IoError`
rw `serde_avro::de::Deserializer::from_container(&$a[..])` => `container(&$a)`
rw `serde_avro::de::Deserializer::from_container(&$a)` => `container(&$a)`
rw `serde_avro::de::Deserializer::from_container($a.as_slice())` => `container(&$a)`
rw `Header::CONTROL_SYNC` => `Header_CONTROL_SYNC`
rw `Self::CONTROL_SYNC` => `Header_CONTROL_SYNC`
rw `payload.into()` => `payload_from(payload)`
rw `Payload::from(payload)` => `payload_from(payload)`
@*/
impl Header {
/*@ fn src/source/avro.rs Header.read
ret: r
spec:
    requires old(cursor).at()
    ensures final(cursor).at(), final(cursor).bytes() == old(cursor).bytes(), match r {
        Ok(h) => old(cursor).rest().len() >= 24 && h.is(old(cursor).rest()) && final(cursor).moved(*old(cursor), 24),
        Err(_) => old(cursor).rest().len() < 24,
    }
at fn-start:
    proof { lemma_skips(cursor.bytes()); }
@*/
/*@ fn src/source/avro.rs Header.sync
ret: r
spec:
    ensures r == (self.control % 2 == 1)
at fn-start:
    let ghost c = self.control;
    assert(c & 1 == c % 2) by (bit_vector);
    assert((c & 1u32 > 0) == (c % 2 == 1)) by (bit_vector);
@*/
}
/*@ fn src/source/avro.rs From<Vec<u8>>@Payload.from
as: payload_from
ret: r
spec:
    ensures r.is(vec@)
@*/
impl Payload {
/*@ fn src/source/avro.rs Payload.read
ret: r
spec:
    ensures match r { Ok(p) => p.is(vec@), Err(_) => stated(vec@) is None }
at fn-start:
    let ghost b = vec@;
    proof { lemma_skips(b); assert(b.skip(0) =~= b); }
    let ghost n0: nat = if b.len() > 24 { b[24] as nat } else { 0 };
loop 1 for iter it:
    invariant
        cursor.at(), cursor.bytes() == b, b.len() > 24, n0 == b[24], num_kv == n0, n0 != 0, header.is(b), header.version >= 2, b == vec@,
        forall|i: int, j: int| 0 <= i && 0 <= j && i + j <= b.len() ==> #[trigger] b.skip(i).skip(j) == b.skip(i + j),
        pairs(cursor.rest(), (n0 - it.index()) as nat, m@) == pairs(b.skip(25), n0, Map::empty()),
at loop 1 start:
    let ghost r0 = cursor.rest();
    proof { reveal_with_fuel(pairs, 2); }
@*/
}

// ---- handling it: one log of what is done, in order
pub enum Did {
    Prepare(Uuid),
    Send(Event),
    Wait(Uuid),
    Remove(Uuid),
    /// bytes written back to the publisher
    Wrote(Seq<u8>),
}
pub mod mio {
    use super::*;
    #[verifier::external_body]
    pub struct Poll { _p: () }
    #[verifier::external_body]
    pub struct Event { _p: () }
    #[verifier::external_body]
    pub struct Events { _p: () }
    impl Events {
        #[verifier::external_body]
        pub fn with_capacity(n: usize) -> Events { unimplemented!() }
    }
    impl Poll {
        /// Whatever happens, in whatever order; waiting itself is taken not to fail.
        #[verifier::external_body]
        pub fn poll(&self, events: &mut Events, t: Option<()>) -> (r: Result<usize, IoError>) ensures r is Ok { unimplemented!() }
    }
    impl Event {
        #[verifier::external_body]
        pub fn token(&self) -> usize { unimplemented!() }
    }
    pub mod net {
        #[verifier::external_body]
        pub struct TcpStream { _p: () }
        impl TcpStream {
            /// the payloads the peer will ever have sent
            pub uninterp spec fn payloads(&self) -> vstd::prelude::Seq<vstd::prelude::Seq<u8>>;
        }
    }
}
#[verifier::external_body]
pub fn events_of(e: mio::Events) -> Vec<mio::Event> { unimplemented!() }
#[verifier::external_body]
pub fn clone_of(s: &mio::net::TcpStream) -> (r: mio::net::TcpStream) ensures r.payloads() == s.payloads() { unimplemented!() }
#[verifier::external_body]
pub fn close(s: &mio::net::TcpStream) -> Result<(), IoError> { unimplemented!() }
#[verifier::external_body]
pub fn unreached<T>() -> (r: T) requires false { unimplemented!() }
pub mod util {
    use super::*;
    /// The output channels, the acknowledgement bag and the connection's way back, seen as one.
    #[verifier::external_body]
    pub struct Channel { _p: () }
    impl Channel {
        pub uninterp spec fn log(&self) -> Seq<Did>;
        /// the ids made so far
        pub uninterp spec fn made(&self) -> Set<Uuid>;
        pub open spec fn next(&self, from: Channel, d: Did) -> bool { self.log() == from.log().push(d) && self.made() == from.made() }
    }
    #[verifier::external_body]
    pub fn send(chans: &mut Channel, event: Event)
        ensures final(chans).next(*old(chans), Did::Send(event))
    { unimplemented!() }
}
/// Uuid::new_v4: never one that was made before
#[verifier::external_body]
pub fn new_id(c: &mut util::Channel) -> (r: Uuid)
    ensures !old(c).made().contains(r), final(c).made() == old(c).made().insert(r), final(c).log() == old(c).log()
{ unimplemented!() }
#[verifier::external_body]
pub fn bag_prepare(c: &mut util::Channel, k: Uuid) ensures final(c).next(*old(c), Did::Prepare(k)) { unimplemented!() }
#[verifier::external_body]
pub fn bag_wait(c: &mut util::Channel, k: Uuid) ensures final(c).next(*old(c), Did::Wait(k)) { unimplemented!() }
#[verifier::external_body]
pub fn bag_remove(c: &mut util::Channel, k: Uuid) ensures final(c).next(*old(c), Did::Remove(k)) { unimplemented!() }
/// all of it, or the front of it and an error (C07)
#[verifier::external_body]
pub fn write_back(c: &mut util::Channel, b: &Vec<u8>) -> (r: Result<(), IoError>)
    ensures match r {
        Ok(_) => final(c).next(*old(c), Did::Wrote(b@)),
        Err(_) => exists|n: int| 0 <= n <= b@.len() && final(c).next(*old(c), Did::Wrote(#[trigger] b@.take(n))),
    }
{ unimplemented!() }
#[verifier::external_body]
pub struct OtherError { _p: () }
/*@ item src/source/nonblocking.rs enum PayloadErr
attr: #[derive(Debug)]
rw `io::Error` => `IoError`
@*/
/// C07 proves what it yields: the payloads of the stream, in order
#[verifier::external_body]
pub struct BufferedPayload { _p: () }
impl BufferedPayload {
    pub uninterp spec fn given(&self) -> Seq<Seq<u8>>;
    pub uninterp spec fn all(&self) -> Seq<Seq<u8>>;
    #[verifier::external_body]
    pub fn new(s: mio::net::TcpStream, max: usize) -> (r: BufferedPayload) ensures r.given().len() == 0, r.all() == s.payloads() { unimplemented!() }
    #[verifier::external_body]
    pub fn read(&mut self) -> (r: Result<Vec<u8>, PayloadErr>)
        ensures final(self).all() == old(self).all(), final(self).given().is_prefix_of(final(self).all()),
            match r { Ok(p) => final(self).given() == old(self).given().push(p@), Err(_) => final(self).given() == old(self).given() }
    { unimplemented!() }
}

pub open spec fn raw_is(e: Event, s: Stated, k: Uuid) -> bool {
    match e {
        Event::Raw { order_by, encoding, bytes, metadata, connection_id } =>
            order_by == s.order_by && encoding is Avro && bytes@ == s.blob && meta_view(metadata) == s.metadata && connection_id == Some(k),
        _ => false,
    }
}
/// the id under which the event among these was sent
pub open spec fn key_of(did: Seq<Did>) -> Uuid {
    let e = if did.len() > 1 { did[1]->Send_0 } else { did[0]->Send_0 };
    e->Raw_connection_id->0
}
/// What is done for one payload up to answering: sent on, and, if wanted, waited for.
pub open spec fn forwarded(s: Stated, did: Seq<Did>, k: Uuid) -> bool {
    if s.sync {
        did.len() == 4 && did[0] == Did::Prepare(k) && did[1] is Send && raw_is(did[1]->Send_0, s, k) && did[2] == Did::Wait(k) && did[3] == Did::Remove(k)
    } else {
        did.len() == 1 && did[0] is Send && raw_is(did[0]->Send_0, s, k)
    }
}
/// and answered
pub open spec fn handled(p: Seq<u8>, did: Seq<Did>, k: Uuid) -> bool {
    match stated(p) {
        None => false,
        Some(s) => if s.sync { did.len() == 5 && forwarded(s, did.drop_last(), k) && did.last() == Did::Wrote(bytes8(s.id as u64)) } else { forwarded(s, did, k) },
    }
}
/// the last payload of a connection: handled, or refused with nothing done, or the publisher left before its answer
pub open spec fn handled_last(p: Seq<u8>, did: Seq<Did>, k: Uuid) -> bool {
    match stated(p) {
        None => did.len() == 0,
        Some(s) => handled(p, did, k) || (s.sync && did.len() == 5 && forwarded(s, did.drop_last(), k) && did.last() is Wrote),
    }
}
pub open spec fn is_sync(p: Seq<u8>) -> bool { stated(p) is Some && stated(p)->0.sync }
pub open spec fn flat(ds: Seq<Seq<Did>>) -> Seq<Did>
    decreases ds.len()
{
    if ds.len() == 0 { Seq::empty() } else { flat(ds.drop_last()) + ds.last() }
}
/// no payload waits for an acknowledgement under the id of another
pub open spec fn own_ids(ps: Seq<Seq<u8>>, ks: Seq<Uuid>) -> bool {
    forall|i: int, j: int| 0 <= i < ps.len() && 0 <= j < ps.len() && i != j && is_sync(ps[i]) ==> #[trigger] ks[i] != #[trigger] ks[j]
}
/// the payloads read are handled one after the other
pub open spec fn done_with(ps: Seq<Seq<u8>>, ks: Seq<Uuid>, ds: Seq<Seq<Did>>, l0: Seq<Did>, l1: Seq<Did>, ended: bool) -> bool {
    &&& ks.len() == ps.len() && ds.len() == ps.len()
    &&& l1 == l0 + flat(ds)
    &&& own_ids(ps, ks)
    &&& forall|i: int| 0 <= i < ps.len() ==> handled(#[trigger] ps[i], ds[i], ks[i]) || (ended && i == ps.len() - 1 && handled_last(ps[i], ds[i], ks[i]))
}
pub open spec fn known(ps: Seq<Seq<u8>>, ks: Seq<Uuid>, made: Set<Uuid>, conn: Uuid) -> bool {
    &&& made.contains(conn)
    &&& forall|i: int| 0 <= i < ps.len() ==> made.contains(#[trigger] ks[i]) && (is_sync(ps[i]) ==> ks[i] != conn)
}
pub proof fn lemma_step(ps: Seq<Seq<u8>>, ks: Seq<Uuid>, ds: Seq<Seq<Did>>, l0: Seq<Did>, l1: Seq<Did>, l2: Seq<Did>, p: Seq<u8>, k: Uuid, d: Seq<Did>, m1: Set<Uuid>, m2: Set<Uuid>, conn: Uuid)
    requires
        done_with(ps, ks, ds, l0, l1, false), known(ps, ks, m1, conn), m1.subset_of(m2), m2.contains(k), l2 == l1 + d,
        !m1.contains(k) || (!is_sync(p) && k == conn), handled_last(p, d, k),
    ensures
        done_with(ps.push(p), ks.push(k), ds.push(d), l0, l2, true),
        handled(p, d, k) ==> done_with(ps.push(p), ks.push(k), ds.push(d), l0, l2, false),
        known(ps.push(p), ks.push(k), m2, conn),
{
    assert(ds.push(d).drop_last() =~= ds);
    assert(l0 + flat(ds.push(d)) =~= l2);
}
pub struct AvroStreamHandler;
impl AvroStreamHandler {
/*@ fn src/source/avro.rs AvroStreamHandler.handle_avro_payload
sig:
    fn handle_avro_payload(&mut self, chans: &mut util::Channel, payload: Vec<u8>, connection_id: Uuid) -> (r: Result<Option<u64>, PayloadErr>)
rw `let ackbag = metric::global_ack_bag();` => ``
rw `$a.prepare_wait($*k)` => `bag_prepare(chans, $*k)`
rw `$a.wait_for($*k)` => `bag_wait(chans, $*k)`
rw `$a.remove($*k)` => `bag_remove(chans, $*k)`
rw `Uuid::new_v4()` => `new_id(chans)`
rw `&mut chans` => `chans`
spec:
    requires old(chans).made().contains(connection_id)
    ensures
        old(chans).made().subset_of(final(chans).made()),
        match stated(payload@) {
            None => r is Err && final(chans).log() == old(chans).log(),
            Some(s) => r is Ok && (if s.sync { r->Ok_0 == Some(s.id as u64) && s.id <= u64::MAX } else { r->Ok_0 is None })
                && ({
                    let d = final(chans).log().skip(old(chans).log().len() as int);
                    let k = key_of(d);
                    forwarded(s, d, k) && final(chans).log() =~= old(chans).log() + d
                        && final(chans).made().contains(k) && (!old(chans).made().contains(k) || (!s.sync && k == connection_id))
                }),
        }
@*/
/*@ fn src/source/avro.rs TCPStreamHandler@AvroStreamHandler.handle_stream
attr: #[verifier::exec_allows_no_decreases_clause]
sig:
    fn handle_stream(&mut self, chans: &mut util::Channel, poller: &mio::Poll, stream: mio::net::TcpStream)
rw `Uuid::new_v4()` => `new_id(chans)`
rw `stream.try_clone().unwrap()` => `clone_of(&stream)`
rw `stream.shutdown($*a)` => `close(&stream)`
rw `chans.clone()` => `chans`
rw `&mut chans` => `chans`
rw `for $e in events {` => `for $e in events_of(events) {`
rw `constants::SYSTEM` => `2048`
rw `panic!($*a)` => `unreached()`
rw `$a.fetch_add(1, Ordering::Relaxed);` => ``
rw `Cursor::new(Vec::new())` => `Cursor::new(Vec::<u8>::new())`
rw `$r.write_u64::<BigEndian>($*e).expect($*s)` => `$r.put8($*e)`
rw `$r.write_u64::<BigEndian>($*e).unwrap()` => `$r.put8($*e)`
rw `write_all(&stream, $*b)` => `{ let ghost l1 = chans.log(); let b = $*b; let r = write_back(chans, b); proof { let w = chans.log().last(); assert(dd.push(w).drop_last() =~= dd); assert(chans.log() =~= lp + dd.push(w)); lemma_step(ps, ks, ds, l0, lp, chans.log(), p, kk, dd.push(w), mp, chans.made(), conn); ps = ps.push(p); ks = ks.push(kk); ds = ds.push(dd.push(w)); } r }`
rw `self.handle_avro_payload($*a)` => `{ proof { p = reader.given().last(); lp = chans.log(); mp = chans.made(); } let r = self.handle_avro_payload($*a); proof { match stated(p) { None => { dd = Seq::empty(); kk = conn; assert(chans.log() =~= lp + dd); } Some(s) => { let d = chans.log().skip(lp.len() as int); let k = key_of(d); dd = d; kk = k; } } if !is_sync(p) { lemma_step(ps, ks, ds, l0, lp, chans.log(), p, kk, dd, mp, chans.made(), conn); ps = ps.push(p); ks = ks.push(kk); ds = ds.push(dd); } } r }`
spec:
    ensures exists|ps: Seq<Seq<u8>>, ks: Seq<Uuid>, ds: Seq<Seq<Did>>| ps.is_prefix_of(stream.payloads())
        && #[trigger] done_with(ps, ks, ds, old(chans).log(), final(chans).log(), true)
at fn-start:
    let ghost l0 = chans.log();
    let ghost mut ps: Seq<Seq<u8>> = Seq::empty();
    let ghost mut ks: Seq<Uuid> = Seq::empty();
    let ghost mut ds: Seq<Seq<Did>> = Seq::empty();
    let ghost mut p: Seq<u8> = Seq::empty();
    let ghost mut lp = l0;
    let ghost mut mp: Set<Uuid> = chans.made();
    let ghost mut dd: Seq<Did> = Seq::empty();
    let ghost mut kk: Uuid = arbitrary();
    assert(l0 + flat(ds) =~= l0);
at loop 1 before:
    let ghost conn = connection_id;
loop 1 while:
    invariant
        l0 == old(chans).log(), conn == connection_id,
        reader.given() == ps, reader.all() == stream.payloads(), ps.is_prefix_of(reader.all()), done_with(ps, ks, ds, l0, chans.log(), !streaming), known(ps, ks, chans.made(), conn),
loop 2 for iter it:
    invariant
        l0 == old(chans).log(), conn == connection_id,
        reader.given() == ps, reader.all() == stream.payloads(), ps.is_prefix_of(reader.all()), done_with(ps, ks, ds, l0, chans.log(), !streaming), known(ps, ks, chans.made(), conn),
loop 3 while:
    invariant
        l0 == old(chans).log(), conn == connection_id,
        reader.given() == ps, reader.all() == stream.payloads(), ps.is_prefix_of(reader.all()), done_with(ps, ks, ds, l0, chans.log(), !streaming), known(ps, ks, chans.made(), conn),
@*/
}
fn main() {}
} // verus!
