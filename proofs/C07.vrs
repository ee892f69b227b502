// C07: length-prefixed payloads.
use vstd::prelude::*;
verus! {
global size_of usize == 8;
//@include inc/frame.inc
pub mod mem { pub use std::mem::replace; }
pub assume_specification<T> [ std::mem::replace ](dest: &mut T, src: T) -> (r: T)
    ensures r == *old(dest), *final(dest) == src;

pub struct BigEndian {}
impl BigEndian {
    #[verifier::external_body]
    pub fn read_u32(b: &[u8; 4]) -> (r: u32) ensures r == be4(b@) { unimplemented!() }
}

/// io::Read for a BufReader, into part of a buffer: some bytes (none only at the end of the stream, or
/// into no room), or an error and no bytes.
pub open spec fn read_some<R>(b0: io::BufReader<R>, b1: io::BufReader<R>, v0: Seq<u8>, v1: Seq<u8>, from: int, to: int, r: Result<usize, io::Error>) -> bool {
    match r {
        Ok(n) => n <= to - from && b1.taken() == b0.taken() + v1.subrange(from, from + n)
            && v1.len() == v0.len()
            && (forall|i: int| 0 <= i < v0.len() && !(from <= i < from + n) ==> v1[i] == v0[i])
            && (n == 0 && to > from ==> b1.ended()),
        Err(e) => !(e.of() is UnexpectedEof) && b1.taken() == b0.taken() && v1.len() == v0.len() && (forall|i: int| 0 <= i < from ==> v1[i] == v0[i]),
    }
}
#[verifier::external_body]
pub fn read_vec<R>(b: &mut io::BufReader<R>, v: &mut Vec<u8>, from: usize, to: usize) -> (r: Result<usize, io::Error>)
    requires from <= to <= old(v)@.len()
    ensures read_some(*old(b), *final(b), old(v)@, final(v)@, from as int, to as int, r)
{ unimplemented!() }
#[verifier::external_body]
pub fn read_array<R>(b: &mut io::BufReader<R>, v: &mut [u8; 4], from: usize) -> (r: Result<usize, io::Error>)
    requires from <= 4
    ensures read_some(*old(b), *final(b), old(v)@, final(v)@, from as int, 4, r)
{ unimplemented!() }
/// io::Write for a stream: some bytes taken from the front, or an error and none.
#[verifier::external_body]
pub fn write_from(s: &mut mio::net::TcpStream, bytes: &[u8], from: usize) -> (r: Result<usize, io::Error>)
    requires from <= bytes@.len()
    ensures match r {
        Ok(n) => n <= bytes@.len() - from && final(s).written() == old(s).written() + bytes@.subrange(from as int, from + n),
        Err(_) => final(s).written() == old(s).written(),
    }
{ unimplemented!() }

/*@ item src/source/nonblocking.rs enum PayloadErr
@*/
/*@ fn src/source/nonblocking.rs From<io::Error>@PayloadErr.from
as: payload_err
ret: r
spec:
    ensures match e.of() {
        io::ErrorKind::WouldBlock => r is WouldBlock,
        io::ErrorKind::UnexpectedEof => r is EOF,
        _ => r == PayloadErr::IO(e),
    }
@*/
/*@ fn src/source/nonblocking.rs write_all
attr: #[verifier::exec_allows_no_decreases_clause]
sig:
    pub fn write_all(stream: &mut mio::net::TcpStream, bytes: &[u8]) -> (r: Result<(), io::Error>)
rw `stream.write(&bytes[$*a..])` => `{ let r = write_from(stream, bytes, $*a); proof { if r is Ok { let n = r->Ok_0; assert(w0 + bytes@.take($*a as int) + bytes@.subrange($*a as int, $*a + n) =~= w0 + bytes@.take($*a + n)); } } r }`
spec:
    ensures match r {
        Ok(_) => final(stream).written() == old(stream).written() + bytes@,
        Err(e) => !(e.of() is WouldBlock) && !(e.of() is Interrupted)
            && exists|n: int| 0 <= n <= bytes@.len() && final(stream).written() == old(stream).written() + #[trigger] bytes@.take(n),
    }
at fn-start:
    let ghost w0 = stream.written();
    assert(w0 + bytes@.take(0) =~= w0);
loop 1 while:
    invariant
        written <= bytes@.len(), w0 == old(stream).written(),
        stream.written() == w0 + bytes@.take(written as int),
at loop 1 after:
    assert(bytes@.take(written as int) =~= bytes@);
@*/

/*@ item src/source/nonblocking.rs struct BufferedPayload
@*/

/// the four bytes that state a length
pub open spec fn prefix(n: nat) -> Seq<u8> {
    seq![(n / 16777216 % 256) as u8, (n / 65536 % 256) as u8, (n / 256 % 256) as u8, (n % 256) as u8]
}
pub open spec fn frame(p: Seq<u8>) -> Seq<u8> { prefix(p.len()) + p }
pub open spec fn frames(ps: Seq<Seq<u8>>) -> Seq<u8>
    decreases ps.len()
{
    if ps.len() == 0 { Seq::empty() } else { frames(ps.drop_last()) + frame(ps.last()) }
}
pub proof fn lemma_prefix(s: Seq<u8>)
    requires s.len() == 4
    ensures prefix(be4(s)) == s, be4(s) < 0x1_0000_0000
{
    let n = be4(s);
    let (a, b, c, d) = (s[0] as nat, s[1] as nat, s[2] as nat, s[3] as nat);
    assert(n / 16777216 % 256 == a && n / 65536 % 256 == b && n / 256 % 256 == c && n % 256 == d) by (nonlinear_arith)
        requires n == a * 16777216 + b * 65536 + c * 256 + d, a < 256, b < 256, c < 256, d < 256;
    assert(prefix(n) =~= s);
}

impl BufferedPayload {
    pub closed spec fn wf(&self) -> bool {
        match self.payload_size {
            Some(n) => n < 0x1_0000_0000 && self.length_pos == 0
                && (self.payload_pos == 0 || (self.payload_pos < n && self.payload@.len() == n && n <= self.max_payload_size)),
            None => self.length_pos <= 4 && self.payload_pos == 0,
        }
    }
    /// what has been taken from the stream of the payload not yet delivered
    pub closed spec fn pending(&self) -> Seq<u8> {
        match self.payload_size {
            Some(n) => prefix(n as nat) + self.payload@.take(self.payload_pos as int),
            None => self.length@.take(self.length_pos as int),
        }
    }
    pub closed spec fn taken(&self) -> Seq<u8> { self.buffer.taken() }
    pub closed spec fn ended(&self) -> bool { self.buffer.ended() }
    pub closed spec fn max(&self) -> nat { self.max_payload_size as nat }
    pub closed spec fn allocated(&self) -> Seq<u8> { self.payload@ }
    /// From `self` to `now` bytes came off the stream, and all of them are still held.
    pub open spec fn held_on(&self, now: &BufferedPayload) -> bool {
        &&& now.wf()
        &&& now.max() == self.max()
        &&& exists|d: Seq<u8>| now.taken() == #[trigger] (self.taken() + d) && now.pending() == self.pending() + d
    }

    /// `d` came off the stream behind `b`, which still held all that came since `a`
    pub proof fn lemma_more(a: BufferedPayload, b: BufferedPayload, d: Seq<u8>)
        requires a.held_on(&b)
        ensures exists|e: Seq<u8>| b.taken() + d == #[trigger] (a.taken() + e) && b.pending() + d == a.pending() + e
    {
        let e = choose|e: Seq<u8>| b.taken() == #[trigger] (a.taken() + e) && b.pending() == a.pending() + e;
        assert(b.taken() + d =~= a.taken() + (e + d));
        assert(b.pending() + d =~= a.pending() + (e + d));
    }
    pub proof fn lemma_same(a: BufferedPayload)
        requires a.wf()
        ensures a.held_on(&a)
    {
        assert(a.taken() =~= a.taken() + Seq::<u8>::empty());
        assert(a.pending() =~= a.pending() + Seq::<u8>::empty());
    }

/*@ fn src/source/nonblocking.rs BufferedPayload.new
ret: r
spec:
    ensures r.wf(), r.pending().len() == 0, r.taken().len() == 0, r.max() == max_payload_size,
@*/
/*@ fn src/source/nonblocking.rs BufferedPayload.read
ret: r
rw `self.read_payload()?` => `{ let ghost s1 = *self; let r = self.read_payload(); proof { if r is Ok { let d2 = choose|d: Seq<u8>| self.taken() == #[trigger] (s1.taken() + d) && s1.pending() + d == frame(self.payload@); Self::lemma_more(s0, s1, d2); } else { let d2 = choose|d: Seq<u8>| self.taken() == #[trigger] (s1.taken() + d) && self.pending() == s1.pending() + d; Self::lemma_more(s0, s1, d2); } } r? }`
spec:
    requires old(self).wf()
    ensures
        final(self).wf(), final(self).max() == old(self).max(),
        match r {
            // exactly one payload: what was pending and what was taken since
            Ok(p) => p@.len() <= final(self).max() && final(self).pending().len() == 0
                && exists|d: Seq<u8>| final(self).taken() == #[trigger] (old(self).taken() + d) && old(self).pending() + d == frame(p@),
            // otherwise every byte taken is kept
            Err(e) => old(self).held_on(final(self))
                && (e is EOF ==> final(self).ended())
                && (e is LengthTooLarge ==> final(self).allocated() == old(self).allocated()
                    && exists|n: nat| n > final(self).max() && final(self).pending() == #[trigger] prefix(n)),
        },
at fn-start:
    let ghost s0 = *self;
    proof { Self::lemma_same(s0); }
at before `if self.payload_size.unwrap()`:
    proof {
        assert(self.payload_pos > 0 ==> self.payload_size == s0.payload_size);
        if self.payload_size->0 > self.max_payload_size && self.payload_pos == 0 {
            assert(self.pending() =~= prefix(self.payload_size->0 as nat));
        }
    }
@*/
/*@ fn src/source/nonblocking.rs BufferedPayload.read_length
ret: r
attr: #[verifier::exec_allows_no_decreases_clause]
rw `self.buffer.read(&mut self.length[$*a..])` => `{ let ghost b = *self; let r = read_array(&mut self.buffer, &mut self.length, $*a); proof { if r is Ok { let n = r->Ok_0 as int; let p = b.length_pos as int; let d = self.length@.subrange(p, p + n); Self::lemma_more(s0, b, d); assert(self.length@.take(p + n) =~= b.length@.take(p) + d); } else { assert(self.length@.take(b.length_pos as int) =~= b.length@.take(b.length_pos as int)); Self::lemma_more(s0, b, Seq::empty()); assert(b.taken() + Seq::<u8>::empty() =~= b.taken()); assert(b.pending() + Seq::<u8>::empty() =~= b.pending()); } } r }`
rw `e.into()` => `payload_err(e)`
rw `Err(ref e)` => `Err(e)`
spec:
    requires old(self).wf()
    ensures
        old(self).held_on(final(self)),
        final(self).payload == old(self).payload, final(self).payload_pos == old(self).payload_pos,
        old(self).payload_size is Some ==> *final(self) == *old(self),
        match r {
            Ok(_) => final(self).payload_size is Some,
            Err(e) => !(e is LengthTooLarge) && (e is EOF ==> final(self).ended()),
        }
at fn-start:
    let ghost s0 = *self;
    proof { Self::lemma_same(s0); }
loop 1 while:
    invariant
        s0 == *old(self), s0.held_on(self), self.payload_size is None, s0.payload_size is None, self.payload == s0.payload, self.payload_pos == s0.payload_pos,
at loop 1 after:
    proof { assert(self.length@.take(4) =~= self.length@); lemma_prefix(self.length@); assert(prefix(be4(self.length@)) + self.payload@.take(0) =~= self.pending()); }
@*/
/*@ fn src/source/nonblocking.rs BufferedPayload.read_payload
ret: r
attr: #[verifier::exec_allows_no_decreases_clause]
rw `self.buffer.read(&mut self.payload[$*a..$*b])` => `{ let ghost b = *self; let r = read_vec(&mut self.buffer, &mut self.payload, $*a, $*b); proof { if r is Ok { let n = r->Ok_0 as int; let p = b.payload_pos as int; let d = self.payload@.subrange(p, p + n); Self::lemma_more(s0, b, d); assert(self.payload@.take(p + n) =~= b.payload@.take(p) + d); assert(prefix(payload_size as nat) + self.payload@.take(p + n) =~= b.pending() + d); if p + n == payload_size { assert(self.payload@.take(p + n) =~= self.payload@); } } else { assert(self.payload@.take(b.payload_pos as int) =~= b.payload@.take(b.payload_pos as int)); Self::lemma_more(s0, b, Seq::empty()); assert(b.taken() + Seq::<u8>::empty() =~= b.taken()); assert(b.pending() + Seq::<u8>::empty() =~= b.pending()); } } r }`
rw `e.into()` => `payload_err(e)`
spec:
    requires old(self).wf(), old(self).payload_size is Some, old(self).payload_size->0 <= old(self).max()
    ensures
        final(self).wf(), final(self).max() == old(self).max(),
        match r {
            Ok(_) => final(self).payload_size is None && final(self).length_pos == 0
                && final(self).payload@.len() == old(self).payload_size->0
                && exists|d: Seq<u8>| final(self).taken() == #[trigger] (old(self).taken() + d) && old(self).pending() + d == frame(final(self).payload@),
            Err(e) => old(self).held_on(final(self)) && !(e is LengthTooLarge) && (e is EOF ==> final(self).ended()),
        }
at fn-start:
    let ghost s0 = *self;
    proof { Self::lemma_same(s0); }
at loop 1 before:
    proof { assert(self.payload@.take(self.payload_pos as int) =~= s0.payload@.take(self.payload_pos as int)); 
        if payload_size == 0 { assert(s0.pending() =~= frame(self.payload@)); } }
loop 1 loop:
    invariant
        s0 == *old(self), s0.wf(), s0.payload_size == Some(payload_size), payload_size <= s0.max(),
        s0.held_on(self), self.payload_size == Some(payload_size), self.payload@.len() == payload_size, self.payload_pos < payload_size,
@*/
}
/// From the first read on: what came off the stream is the delivered payloads' frames and what is pending.
pub proof fn theorem_stream(ps: Seq<Seq<u8>>, t0: Seq<u8>, pend0: Seq<u8>, d: Seq<u8>, p: Seq<u8>)
    requires t0 == frames(ps) + pend0, pend0 + d == frame(p)
    ensures t0 + d == frames(ps.push(p))
{
    assert(ps.push(p).drop_last() =~= ps);
    assert(t0 + d =~= frames(ps) + (pend0 + d));
}
fn main() {}
} // verus!
