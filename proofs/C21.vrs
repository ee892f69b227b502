// C21: following a file.
use vstd::prelude::*;
use std::mem;
verus! {
global size_of usize == 8;
pub type Bytes = Seq<u8>;
pub assume_specification<T> [std::mem::replace] (a: &mut T, b: T) -> (r: T)
    ensures r == *old(a), *final(a) == b;
/// what the watcher sees of the file system, in order
pub enum Obs {
    /// which file is at the path
    Id(Option<(u64, u64)>),
    /// the path was opened
    Open(bool),
    /// the size of the open file
    Size(u64),
    /// bytes read: behind the last ones
    Read(Bytes),
    /// reading failed behind those bytes
    Fail(Bytes),
    /// reading goes on at the start
    Rewind,
    /// reading goes on at the end
    ToEnd,
    /// reading goes on somewhere else
    Elsewhere,
}
#[verifier::external_body]
pub struct World { _p: () }
impl World { pub uninterp spec fn seen(&self) -> Seq<Obs>; }
/// what was seen since
pub closed spec fn since(a: Seq<Obs>, b: Seq<Obs>) -> Seq<Obs> { b.skip(a.len() as int) }
pub closed spec fn on(a: Seq<Obs>, b: Seq<Obs>) -> bool { a.len() <= b.len() && b.take(a.len() as int) == a }
pub broadcast proof fn lemma_now(a: Seq<Obs>)
    ensures #[trigger] since(a, a) == Seq::<Obs>::empty(), on(a, a)
{ assert(a.take(a.len() as int) =~= a); assert(since(a, a) =~= Seq::empty()); }
pub broadcast proof fn lemma_next(a: Seq<Obs>, b: Seq<Obs>, o: Obs)
    requires on(a, b)
    ensures #![trigger since(a, b.push(o))] #![trigger on(a, b.push(o))] since(a, b.push(o)) == since(a, b).push(o), on(a, b.push(o))
{
    assert(b.push(o).take(a.len() as int) =~= b.take(a.len() as int));
    assert(since(a, b.push(o)) =~= since(a, b).push(o));
}

#[verifier::external_body]
pub struct PathBuf { _p: () }
impl Clone for PathBuf { #[verifier::external_body] fn clone(&self) -> (r: PathBuf) ensures r == *self { unimplemented!() } }
pub mod io {
    use super::*;
    pub enum ErrorKind { NotFound, InvalidData, Other }
    #[verifier::external_body]
    pub struct Error { _p: () }
    impl Error {
        pub uninterp spec fn k(&self) -> ErrorKind;
        #[verifier::external_body]
        pub fn kind(&self) -> (r: ErrorKind) ensures r == self.k() { unimplemented!() }
        #[verifier::external_body]
        pub fn new<E>(k: ErrorKind, e: E) -> (r: Error) ensures r.k() == k { unimplemented!() }
    }
    pub type Result<T> = std::result::Result<T, Error>;
    pub enum SeekFrom { Start(u64), End(i64), Current(i64) }
    #[verifier::external_body]
    #[verifier::reject_recursive_types(T)]
    pub struct BufReader<T> { _p: std::marker::PhantomData<T> }
    impl BufReader<fs::File> {
        #[verifier::external_body]
        pub fn new(f: fs::File) -> BufReader<fs::File> { unimplemented!() }
        /// all up to and including the byte, or up to the end
        #[verifier::external_body]
        pub fn read_until(&mut self, w: &mut World, c: u8, buf: &mut Vec<u8>) -> (r: Result<usize>)
            ensures
                forall|i: int| old(buf)@.len() <= i < final(buf)@.len() - (if r is Ok { 1int } else { 0 }) ==> final(buf)@[i] != c,
                ({
                    let p = piece(old(buf)@, final(buf)@);
                    &&& final(buf)@ == old(buf)@ + p
                    &&& match r {
                        Ok(n) => final(w).seen() == old(w).seen().push(Obs::Read(p)) && n == p.len()
                            && forall|i: int| 0 <= i < p.len() - 1 ==> p[i] != c,
                        // a file can be read as long as it is open, whatever happens to its path
                        Err(e) => final(w).seen() == old(w).seen().push(Obs::Fail(p)) && !(e.k() is NotFound)
                            && forall|i: int| 0 <= i < p.len() ==> p[i] != c,
                    }
                })
        { unimplemented!() }
        #[verifier::external_body]
        pub fn seek(&mut self, w: &mut World, to: SeekFrom) -> (r: Result<u64>)
            ensures r is Ok, final(w).seen() == old(w).seen().push(match to {
                SeekFrom::Start(n) => if n == 0 { Obs::Rewind } else { Obs::Elsewhere },
                SeekFrom::End(n) => if n == 0 { Obs::ToEnd } else { Obs::Elsewhere },
                _ => Obs::Elsewhere })
        { unimplemented!() }
        #[verifier::external_body]
        pub fn size_now(&self, w: &mut World) -> (r: u64)
            ensures final(w).seen() == old(w).seen().push(Obs::Size(r))
        { unimplemented!() }
    }
}
pub mod fs {
    use super::*;
    #[verifier::external_body]
    pub struct File { _p: () }
    #[verifier::external_body]
    pub struct Metadata { _p: () }
    impl Metadata {
        pub uninterp spec fn id(&self) -> (u64, u64);
        #[verifier::external_body]
        pub fn dev(&self) -> (r: u64) ensures r == self.id().0 { unimplemented!() }
        #[verifier::external_body]
        pub fn ino(&self) -> (r: u64) ensures r == self.id().1 { unimplemented!() }
        #[verifier::external_body]
        pub fn size(&self) -> u64 { unimplemented!() }
    }
    impl File {
        #[verifier::external_body]
        pub fn open(w: &mut World, p: &PathBuf) -> (r: io::Result<File>)
            ensures final(w).seen() == old(w).seen().push(Obs::Open(r is Ok))
        { unimplemented!() }
        #[verifier::external_body]
        pub fn metadata(&self) -> io::Result<Metadata> { unimplemented!() }
        /// the metadata of an open file can be read
        #[verifier::external_body]
        pub fn metadata_ok(&self) -> Metadata { unimplemented!() }
    }
    #[verifier::external_body]
    pub fn metadata(w: &mut World, p: &PathBuf) -> (r: io::Result<Metadata>)
        ensures final(w).seen() == old(w).seen().push(Obs::Id(match r { Ok(m) => Some(m.id()), Err(_) => None }))
    { unimplemented!() }
}
/// what was appended
pub open spec fn piece(a: Bytes, b: Bytes) -> Bytes { b.skip(a.len() as int) }

// ---- texts
pub uninterp spec fn text_of(b: Bytes) -> Option<Seq<char>>;
pub open spec fn utf8(b: Bytes) -> bool { text_of(b) is Some }
#[verifier::external_body]
pub struct Utf8Error { _p: () }
#[verifier::external_body]
pub fn from_utf8(v: &Vec<u8>) -> (r: Result<&str, Utf8Error>)
    ensures match r { Ok(t) => text_of(v@) == Some(t@), Err(_) => !utf8(v@) }
{ unimplemented!() }
#[verifier::external_body]
pub fn text_len(t: &str) -> (r: usize) ensures forall|b: Bytes| #[trigger] text_of(b) == Some(t@) ==> b.len() == r { unimplemented!() }
#[verifier::external_body]
pub fn push_text(b: &mut String, t: &str) ensures final(b)@ == old(b)@ + t@ { unimplemented!() }
#[verifier::external_body]
pub proof fn ax_empty() ensures text_of(Seq::empty()) == Some(Seq::<char>::empty()) {}
pub fn must(b: bool) requires b { }
#[verifier::external_body]
pub fn ids_differ(a: Option<(u64, u64)>, b: Option<(u64, u64)>) -> (r: bool) ensures r == (a != b) { a != b }
pub fn is_nl(a: Option<&u8>) -> (r: bool) ensures r == (a is Some && *a->0 == 10u8) { match a { Some(x) => *x == 10u8, None => false } }

// ---- what following a file means

/// the bytes read in the course of a sequence of observations
pub open spec fn bytes_of(d: Seq<Obs>) -> Bytes
    decreases d.len()
{
    if d.len() == 0 { Seq::empty() } else {
        bytes_of(d.drop_last()) + (match d.last() { Obs::Read(p) => p, Obs::Fail(p) => p, _ => Seq::empty() })
    }
}
pub open spec fn no_nl(b: Bytes) -> bool { forall|i: int| 0 <= i < b.len() ==> b[i] != 10u8 }
/// the file was seen to be another one, and has since been read to its end
pub open spec fn left_behind(d: Seq<Obs>, id: Option<(u64, u64)>) -> bool {
    exists|i: int| 0 <= i < d.len() - 1 && (#[trigger] d[i] is Id) && d[i]->Id_0 != id
        && forall|j: int| i < j < d.len() ==> match #[trigger] d[j] { Obs::Read(p) => no_nl(p), _ => false }
}
pub open spec fn shrunk(d: Seq<Obs>, before: u64) -> bool {
    exists|i: int| 0 <= i < d.len() - 1 && (#[trigger] d[i] is Size) && d[i]->Size_0 < before && d[i + 1] is Rewind
}
pub open spec fn no_open(d: Seq<Obs>) -> bool { forall|i: int| 0 <= i < d.len() ==> !(#[trigger] d[i] is Open) }
pub open spec fn no_rewind(d: Seq<Obs>) -> bool { forall|i: int| 0 <= i < d.len() ==> !(#[trigger] d[i] is Rewind) && !(d[i] is ToEnd) && !(d[i] is Elsewhere) }
pub closed spec fn opens_first(d: Seq<Obs>) -> bool { d.len() > 0 && d[0] is Open }
pub broadcast proof fn lemma_opens_first(d: Seq<Obs>, o: Obs)
    ensures #[trigger] opens_first(d.push(o)) == (opens_first(d) || (d.len() == 0 && o is Open))
{ assert(d.push(o)[d.len() as int] == o); if d.len() > 0 { assert(d.push(o)[0] == d[0]); } }
pub open spec fn read_in(o: Obs) -> Bytes { match o { Obs::Read(p) => p, Obs::Fail(p) => p, _ => Seq::empty() } }
pub broadcast proof fn lemma_bytes(d: Seq<Obs>, o: Obs)
    ensures #[trigger] bytes_of(d.push(o)) == bytes_of(d) + read_in(o)
{ assert(d.push(o).drop_last() =~= d); }
pub broadcast proof fn lemma_bytes_none(d: Seq<Obs>)
    requires d.len() == 0
    ensures #[trigger] bytes_of(d) == Seq::<u8>::empty()
{ }
pub broadcast proof fn lemma_no_open(d: Seq<Obs>, o: Obs)
    ensures #[trigger] no_open(d.push(o)) == (no_open(d) && !(o is Open))
{ assert(d.push(o)[d.len() as int] == o); assert(forall|i: int| 0 <= i < d.len() ==> d.push(o)[i] == d[i]); }
pub broadcast proof fn lemma_no_rewind(d: Seq<Obs>, o: Obs)
    ensures #[trigger] no_rewind(d.push(o)) == (no_rewind(d) && !(o is Rewind) && !(o is ToEnd) && !(o is Elsewhere))
{ assert(d.push(o)[d.len() as int] == o); assert(forall|i: int| 0 <= i < d.len() ==> d.push(o)[i] == d[i]); }
pub broadcast proof fn lemma_shrunk(d: Seq<Obs>, o: Obs, b: u64)
    ensures shrunk(d, b) ==> #[trigger] shrunk(d.push(o), b),
        o is Rewind && d.len() > 0 && d.last() is Size && d.last()->Size_0 < b ==> shrunk(d.push(o), b)
{
    let e = d.push(o);
    if shrunk(d, b) {
        let i = choose|i: int| 0 <= i < d.len() - 1 && (#[trigger] d[i] is Size) && d[i]->Size_0 < b && d[i + 1] is Rewind;
        assert(e[i] == d[i] && e[i + 1] == d[i + 1]);
    }
    if o is Rewind && d.len() > 0 && d.last() is Size && d.last()->Size_0 < b { assert(e[d.len() - 1] == d.last() && e[d.len() as int] == o); }
}
pub broadcast proof fn lemma_left(d: Seq<Obs>, o: Obs, id: Option<(u64, u64)>)
    ensures d.len() > 0 && d.last() is Id && d.last()->Id_0 != id && (match o { Obs::Read(p) => no_nl(p), _ => false }) ==> #[trigger] left_behind(d.push(o), id),
{
    let e = d.push(o);
    if d.len() > 0 && d.last() is Id && d.last()->Id_0 != id && (match o { Obs::Read(p) => no_nl(p), _ => false }) { let i = d.len() - 1; assert(e[i] == d.last() && e[i + 1] == o); assert(e[i] is Id); }
}
/// what is held grows by what is read
pub broadcast proof fn lemma_bytes_at(h: Bytes, d: Seq<Obs>, o: Obs)
    ensures #[trigger] (h + bytes_of(d.push(o))) == (h + bytes_of(d)) + read_in(o),
        read_in(o).len() == 0 ==> h + bytes_of(d.push(o)) == h + bytes_of(d),
{
    lemma_bytes(d, o);
    assert(h + (bytes_of(d) + read_in(o)) =~= (h + bytes_of(d)) + read_in(o));
    if read_in(o).len() == 0 { assert((h + bytes_of(d)) + read_in(o) =~= h + bytes_of(d)); }
}
pub broadcast group seeing { lemma_now, lemma_next, lemma_bytes, lemma_bytes_none, lemma_no_open, lemma_no_rewind, lemma_shrunk, lemma_left, lemma_bytes_at, lemma_opens_first }
pub proof fn lemma_none() ensures no_open(Seq::empty()), no_rewind(Seq::empty()) { }

pub open spec fn line_out(all: Bytes, d: Seq<Obs>, held: Bytes, leaving: bool, b0: Seq<char>, b1: Seq<char>, r: io::Result<usize>) -> bool {
    match r {
        Ok(n) => {
            ||| // a line
                n > 0 && held.len() == 0 && whole_line(all, d, n as int, leaving)
                    && b1 == b0 + text_of(all.take(n as int))->0 && utf8(all.take(n as int))
            ||| // an empty line
                n == 0 && held.len() == 0 && all =~= seq![10u8] && b1 == b0
            ||| // no line as yet
                n == 0 && held == all && no_nl(all) && b1 == b0
        },
        Err(_) => b1 == b0 && ({
            ||| // a line that is not text
                held.len() == 0 && exists|n: int| #[trigger] whole_line(all, d, n, leaving) && !utf8(all.take(n))
            ||| // nothing can be read
                held == all && no_nl(all)
        }),
    }
}
/// the first `n` bytes are a line with its end, or the rest of a file that is no longer written
pub open spec fn whole_line(all: Bytes, d: Seq<Obs>, n: int, leaving: bool) -> bool {
    0 <= n <= all.len() && no_nl(all.take(n)) && ((all.len() == n + 1 && all[n] == 10u8) || (all.len() == n && (leaving || !no_rewind(d))))
}
pub proof fn lemma_line(all: Bytes, h: Bytes, d: Seq<Obs>, held: Bytes, leaving: bool, b0: Seq<char>, b1: Seq<char>, r: io::Result<usize>)
    requires
        no_nl(h), held.len() == 0,
        all == h && (leaving || !no_rewind(d)) || all.len() == h.len() + 1 && all.last() == 10u8 && all.drop_last() == h,
        match r { Ok(n) => n == h.len() && utf8(h) && b1 == b0 + text_of(h)->0, Err(_) => !utf8(h) && b1 == b0 },
    ensures line_out(all, d, held, leaving, b0, b1, r)
{
    assert(all.take(h.len() as int) =~= h);
    ax_empty();
    if h.len() == 0 {
        assert(h =~= Seq::<u8>::empty()); assert(held =~= h); assert(b0 + Seq::<char>::empty() =~= b0);
        if all.len() == 1 { assert(all =~= seq![10u8]); }
    }
    assert(whole_line(all, d, h.len() as int, leaving));
}
/*@ rewrites
rw `report_full_telemetry($*a);` => ``
rw `fs::File::open($*p)` => `fs::File::open(w, $*p)`
rw `fs::metadata($*p)` => `fs::metadata(w, $*p)`
rw `f.metadata().unwrap()` => `f.metadata_ok()`
rw `$r.get_ref().metadata().unwrap().size()` => `$r.size_now(w)`
rw `assert!($*x);` => `must($*x);`
rw `.seek(` => `.seek(w, `
rw `.read_until(` => `.read_until(w, `
rw `self.open_at_start()` => `self.open_at_start(w)`
rw `file_id(&self.path) != self.file_id` => `ids_differ(file_id(&self.path, w), self.file_id)`
rw `self.file_id != file_id(&self.path)` => `ids_differ(file_id(&self.path, w), self.file_id)`
rw `file_id(&self.path) == self.file_id` => `!ids_differ(file_id(&self.path, w), self.file_id)`
rw `str::from_utf8($*x)` => `from_utf8($*x)`
rw `String::from_utf8($*x)` => `string_from_utf8($*x)`
rw `buffer.push_str($*x)` => `push_text(buffer, $*x)`
rw `line.len()` => `text_len(line)`
rw `self.partial.last() == Some(&b'\n')` => `is_nl(self.partial.last())`
rw `self.partial.ends_with(b"\n")` => `is_nl(self.partial.last())`
rw `if let Some(ref mut reader) = self.reader` => `if let Some(reader) = &mut self.reader`
rw `b'\n'` => `10u8`
@*/
/*@ fn src/source/file/file_watcher.rs file_id
sig:
    fn file_id(path: &PathBuf, w: &mut World) -> (r: Option<(u64, u64)>)
spec:
    ensures final(w).seen() == old(w).seen().push(Obs::Id(r))
@*/
/*@ item src/source/file/file_watcher.rs struct FileWatcher
@*/
impl FileWatcher {
    /// nothing is held of a file that is being left
    pub closed spec fn ok(&self) -> bool { no_nl(self.partial@) && (self.reopen || self.reader is None ==> self.partial@.len() == 0) }
    /// what has been read of a line whose end has not
    pub closed spec fn held(&self) -> Bytes { self.partial@ }
    pub closed spec fn leaving(&self) -> bool { self.reopen }
    pub closed spec fn has_file(&self) -> bool { self.reader is Some }
    pub closed spec fn id(&self) -> Option<(u64, u64)> { self.file_id }
    pub closed spec fn last_size(&self) -> u64 { self.previous_size }
/*@ fn src/source/file/file_watcher.rs FileWatcher.new
sig:
    pub fn new(path: &PathBuf, w: &mut World) -> (r: io::Result<FileWatcher>)
spec:
    ensures
        // a file is followed from its end, a path without one is waited for
        match r {
            Ok(f) => f.ok() && f.held().len() == 0 && !f.leaving()
                && final(w).seen() == if f.has_file() { old(w).seen().push(Obs::Open(true)).push(Obs::ToEnd) } else { old(w).seen().push(Obs::Open(false)) },
            Err(_) => true,
        }
@*/
/*@ fn src/source/file/file_watcher.rs FileWatcher.from_start
sig:
    pub fn from_start(self) -> (r: FileWatcher)
spec:
    requires self.ok(), self.held().len() == 0
    ensures r.ok(), r.leaving(), r.held().len() == 0, r.has_file() == self.has_file(), r.id() == self.id(), r.last_size() == self.last_size()
@*/
/*@ fn src/source/file/file_watcher.rs FileWatcher.open_at_start
sig:
    fn open_at_start(&mut self, w: &mut World)
rw `.to_str()` => `.to_str()`
spec:
    ensures
        final(w).seen() == old(w).seen().push(Obs::Open(final(self).has_file())),
        !final(self).leaving(), final(self).held() == old(self).held(),
@*/
/*@ fn src/source/file/file_watcher.rs FileWatcher.dead
ret: r
spec:
    ensures r == (!self.has_file() && self.id() is None)
@*/
/*@ fn src/source/file/file_watcher.rs FileWatcher.take_line
ret: r
spec:
    ensures
        final(self).held().len() == 0,
        final(self).leaving() == old(self).leaving(), final(self).has_file() == old(self).has_file(),
        final(self).id() == old(self).id(), final(self).last_size() == old(self).last_size(),
        match r {
            Ok(n) => n == old(self).held().len() && utf8(old(self).held()) && final(buffer)@ == old(buffer)@ + text_of(old(self).held())->0,
            Err(_) => !utf8(old(self).held()) && final(buffer)@ == old(buffer)@,
        }
at fn-start:
    proof { ax_empty(); }
@*/
/*@ fn src/source/file/file_watcher.rs FileWatcher.read_line
attr: #[verifier::loop_isolation(false)]
sig:
    pub fn read_line(&mut self, buffer: &mut String, w: &mut World) -> (r: io::Result<usize>)
rw `self.take_line(buffer)` => `{ let ghost h = self.partial@; let r = self.take_line(buffer); proof { lemma_line(f0.partial@ + bytes_of(since(w0, w.seen())), h, since(w0, w.seen()), self.partial@, self.reopen, b0, buffer@, r); } r }`
spec:
    requires old(self).ok()
    ensures
        final(self).ok(), on(old(w).seen(), final(w).seen()),
        ({
            let d = since(old(w).seen(), final(w).seen());
            let all = old(self).held() + bytes_of(d);
            // another file is opened only when the one before is left, or there was none
            &&& !no_open(d) ==> old(self).leaving() || !old(self).has_file()
            // the other file is read from its start
            &&& old(self).leaving() ==> opens_first(d)
            // a file is left only once it is seen to be replaced and then read to its end
            &&& final(self).leaving() && !old(self).leaving() ==> left_behind(d, old(self).id())  || r is Err
            // it is read again from its start only when it shrank
            &&& no_rewind(d) || !no_open(d) || shrunk(d, old(self).last_size())
            // a line is yielded when its end is there, or when it will not be written anymore; nothing is lost
            &&& line_out(all, d, final(self).held(), final(self).leaving(), old(buffer)@, final(buffer)@, r)
        })
at fn-start:
    let ghost f0 = *self;
    let ghost w0 = w.seen();
    let ghost b0 = buffer@;
    broadcast use seeing;
    proof { lemma_none(); ax_empty(); lemma_now(w.seen()); }
loop 1:
    invariant
        w0 == old(w).seen(), f0 == *old(self), b0 == old(buffer)@,
        on(w0, w.seen()), buffer@ == b0, f0.ok(),
        self.partial@ == f0.partial@ + bytes_of(since(w0, w.seen())),
        no_nl(self.partial@),
        !self.reopen, after_borrow(self.reader) is Some,
        !no_open(since(w0, w.seen())) ==> f0.reopen || f0.reader is None,
        f0.reopen ==> opens_first(since(w0, w.seen())),
        self.file_id == f0.file_id || f0.reopen,
        no_rewind(since(w0, w.seen())) || !no_open(since(w0, w.seen())) || shrunk(since(w0, w.seen()), f0.previous_size),
        replaced ==> since(w0, w.seen()).len() > 0 && since(w0, w.seen()).last() is Id && since(w0, w.seen()).last()->Id_0 != self.file_id,
    decreases if replaced { 0int } else { 1int },
at loop 1 start:
    broadcast use seeing;
@*/
}

// ---- the source: what is read is sent
pub uninterp spec fn name_of(p: PathBuf) -> Seq<char>;
impl PathBuf {
    /// paths are taken to be text
    #[verifier::external_body]
    pub fn text(&self) -> (r: &str) ensures r@ == name_of(*self) { unimplemented!() }
}
/// a line read from a file
pub struct Yielded { pub path: Seq<char>, pub text: Seq<char> }
#[verifier::external_body]
pub struct Ledger { _p: () }
impl Ledger {
    /// every line read from any file, in order
    pub uninterp spec fn got(&self) -> Seq<Yielded>;
    /// one more line has been read: it is what the read added to the buffer
    #[verifier::external_body]
    pub fn note(&mut self, p: &PathBuf, before: Ghost<Seq<char>>, buffer: &String, r: &io::Result<usize>)
        ensures
            *r is Ok && r->Ok_0 > 0 ==> final(self).got() == old(self).got().push(Yielded { path: name_of(*p), text: buffer@.skip(before@.len() as int) }),
            *r is Ok && r->Ok_0 == 0 || *r is Err ==> final(self).got() == old(self).got(),
            // no line is longer than memory can be
            *r is Ok ==> r->Ok_0 <= 0x7fff_ffff_ffff_ffff,
    { unimplemented!() }
}
pub mod metric {
    use super::*;
    #[verifier::external_body]
    pub struct LogLine { _p: () }
    impl LogLine {
        pub uninterp spec fn v(&self) -> Yielded;
        #[verifier::external_body]
        pub fn new(path: &str, value: &str) -> (r: LogLine) ensures r.v() == (Yielded { path: path@, text: value@ }) { unimplemented!() }
    }
    pub enum Event { Shutdown, Log(LogLine) }
    impl Event {
        pub fn new_log(l: LogLine) -> (r: Event) ensures r == Event::Log(l) { Event::Log(l) }
    }
}
pub mod util {
    use super::*;
    #[verifier::external_body]
    pub struct Channel { _p: () }
    impl Channel { pub uninterp spec fn sent(&self) -> Seq<metric::Event>; }
    #[verifier::external_body]
    pub fn send(chans: &mut Channel, event: metric::Event)
        ensures final(chans).sent() == old(chans).sent().push(event)
    { unimplemented!() }
}
pub use util::send;
pub mod mio {
    use super::*;
    #[verifier::external_body]
    pub struct Poll { _p: () }
    #[verifier::external_body]
    pub struct PollError { _p: () }
    #[verifier::external_body]
    pub struct Events { _p: () }
    impl Events {
        #[verifier::external_body]
        pub fn with_capacity(n: usize) -> Events { unimplemented!() }
    }
    impl Poll {
        /// waiting itself is taken not to fail
        #[verifier::external_body]
        pub fn poll(&self, events: &mut Events, t: Option<()>) -> (r: Result<usize, PollError>) ensures r is Ok { unimplemented!() }
    }
}
pub fn unreached() requires false { }
/// util::HashMap<PathBuf, FileWatcher>
#[verifier::external_body]
pub struct Watchers { _p: () }
impl View for Watchers {
    type V = Map<PathBuf, FileWatcher>;
    uninterp spec fn view(&self) -> Map<PathBuf, FileWatcher>;
}
impl Watchers {
    #[verifier::external_body]
    pub fn default() -> (r: Watchers) ensures r@ == Map::<PathBuf, FileWatcher>::empty() { unimplemented!() }
    #[verifier::external_body]
    pub fn or_insert(&mut self, k: PathBuf, v: FileWatcher)
        ensures final(self)@ == if old(self)@.dom().contains(k) { old(self)@ } else { old(self)@.insert(k, v) }
    { unimplemented!() }
    #[verifier::external_body]
    pub fn contains_key(&self, k: &PathBuf) -> (r: bool) ensures r == self@.dom().contains(*k) { unimplemented!() }
    #[verifier::external_body]
    pub fn insert(&mut self, k: PathBuf, v: FileWatcher) ensures final(self)@ == old(self)@.insert(k, v) { unimplemented!() }
    /// in any order
    #[verifier::external_body]
    pub fn drain(&mut self) -> (r: Vec<(PathBuf, FileWatcher)>)
        ensures
            final(self)@ == Map::<PathBuf, FileWatcher>::empty(),
            forall|i: int| 0 <= i < r@.len() ==> old(self)@.dom().contains((#[trigger] r@[i]).0) && old(self)@[r@[i].0] == r@[i].1,
            forall|k: PathBuf| #[trigger] old(self)@.dom().contains(k) ==> exists|i: int| 0 <= i < r@.len() && r@[i].0 == k,
            forall|i: int, j: int| 0 <= i < r@.len() && 0 <= j < r@.len() && i != j ==> r@[i].0 != r@[j].0,
    { unimplemented!() }
}
#[verifier::external_body]
pub struct GlobError { _p: () }
#[verifier::external_body]
pub fn glob_of(p: &str) -> Vec<Result<PathBuf, GlobError>> { unimplemented!() }
#[verifier::external_body]
pub fn drain_all<T>(v: &mut Vec<T>) -> (r: Vec<T>) ensures r@ == old(v)@, final(v)@ == Seq::<T>::empty() { unimplemented!() }

pub open spec fn all_ok(m: Map<PathBuf, FileWatcher>) -> bool { forall|k: PathBuf| #[trigger] m.dom().contains(k) ==> m[k].ok() }
/// what was sent is, line by line, what was read
pub open spec fn told(before: Seq<metric::Event>, sent: Seq<metric::Event>, got: Seq<Yielded>) -> bool {
    sent.len() == before.len() + got.len()
    && (forall|i: int| 0 <= i < before.len() ==> #[trigger] sent[i] == before[i])
    && forall|i: int| 0 <= i < got.len() ==> match #[trigger] sent[before.len() + i] { metric::Event::Log(l) => l.v() == got[i], _ => false }
}
/// the lines waiting to be sent are what was read since `n`
pub open spec fn waiting(lines: Seq<metric::LogLine>, got: Seq<Yielded>, n: int) -> bool {
    0 <= n && got.len() == n + lines.len() && forall|i: int| 0 <= i < lines.len() ==> (#[trigger] lines[i]).v() == got[n + i]
}
/// a file that is not gone is followed further
pub open spec fn goes_on(read: FileWatcher, k: PathBuf, m: Map<PathBuf, FileWatcher>) -> bool {
    if read.has_file() || read.id() is Some { m.dom().contains(k) && m[k] == read } else { true }
}
/*@ item src/source/file/file_server.rs struct FileServer
@*/
impl FileServer {
    pub closed spec fn most(&self) -> usize { self.max_read_bytes }
/*@ fn src/source/file/file_server.rs Source@FileServer.run
attr: #[verifier::exec_allows_no_decreases_clause]
sig:
    pub fn run(self, chans: &mut util::Channel, poller: mio::Poll, w: &mut World, led: &mut Ledger)
rw `.to_str().expect($*m)` => `.text()`
rw `glob($*a).expect($*m)` => `glob_of($*a)`
rw `let entry = fp_map.entry(path.clone());` => ``
rw `entry.or_insert($*e);` => `{ let e = $*e; fp_map.or_insert(path.clone(), e); }`
rw `entry.or_insert_with(|| $*e);` => `{ let e = $*e; fp_map.or_insert(path.clone(), e); }`
rw `FileWatcher::new($*a)` => `FileWatcher::new($*a, w)`
rw `util::HashMap<PathBuf, FileWatcher> = Default::default()` => `Watchers = Watchers::default()`
rw `watcher.read_line(&mut buffer)` => `{ let ghost b = buffer@; let r = watcher.read_line(&mut buffer, w); led.note(&path, Ghost(b), &buffer, &r); proof { assert(buffer@.skip(0) =~= buffer@); } r }`
rw `for (path, mut watcher) in fp_map.drain()` => `for (path, watcher0) in fp_map.drain()`
rw `let mut bytes_read: usize = 0;` => `let mut watcher = watcher0; let mut bytes_read: usize = 0;`
rw `lines.drain(..)` => `drain_all(&mut lines)`
rw `send(&mut chans, metric::Event::Shutdown);` => `send(chans, metric::Event::Shutdown); proof { assert(chans.sent().drop_last() =~= sent9); }`
rw `match poller.poll($*a)` => `let ghost sent9 = chans.sent(); match poller.poll($*a)`
rw `send(&mut chans, $*e)` => `send(chans, $*e)`
rw `Some(time::Duration::from_millis($*e))` => `None`
rw `panic!($*x)` => `unreached()`
spec:
    requires self.most() <= 0x3fff_ffff_ffff_ffff, old(led).got().len() == 0,
    ensures
        // every line read was sent, in the order read, and then the shutdown
        final(chans).sent().len() > 0 && final(chans).sent().last() is Shutdown,
        told(old(chans).sent(), final(chans).sent().drop_last(), final(led).got()),
at fn-start:
    let ghost before = chans.sent();
    let ghost mut looks: int = 0;
loop 1:
    invariant
        self.max_read_bytes <= 0x3fff_ffff_ffff_ffff,
        all_ok(fp_map@), fp_map_alt@ == Map::<PathBuf, FileWatcher>::empty(),
        buffer@.len() == 0, lines@.len() == 0,
        starting == (looks == 0), looks >= 0,
        // nothing read is held back while the source sleeps
        told(before, chans.sent(), led.got()), before == old(chans).sent(),
at loop 1 start:
    let ghost kept = fp_map@;
    let ghost n0 = led.got().len() as int;
    let ghost first = looks == 0;
    proof { looks = looks + 1; }
loop 2 for iter it:
    invariant
        all_ok(fp_map@),
        // a file that is followed is not taken up anew
        kept.submap_of(fp_map@),
        // what is there at the start is followed from its end, what turns up later from its start
        starting == first,
        forall|k: PathBuf| #[trigger] fp_map@.dom().contains(k) && !kept.dom().contains(k) ==> fp_map@[k].leaving() == !first,
at loop 2 after:
    let ghost found = fp_map@;
    let ghost mut read: Map<PathBuf, FileWatcher> = Map::empty();
    let ghost sent0 = chans.sent();
    let ghost got0 = led.got();
loop 3 for iter it:
    invariant
        self.max_read_bytes <= 0x3fff_ffff_ffff_ffff,
        all_ok(fp_map_alt@), all_ok(found),
        forall|i: int| 0 <= i < it.seq().len() ==> found.dom().contains((#[trigger] it.seq()[i]).0) && found[it.seq()[i].0] == it.seq()[i].1,
        forall|k: PathBuf| #[trigger] found.dom().contains(k) ==> exists|i: int| 0 <= i < it.seq().len() && it.seq()[i].0 == k,
        forall|i: int, j: int| 0 <= i < it.seq().len() && 0 <= j < it.seq().len() && i != j ==> it.seq()[i].0 != it.seq()[j].0,
        fp_map@ == Map::<PathBuf, FileWatcher>::empty(),
        buffer@.len() == 0,
        waiting(lines@, led.got(), n0),
        chans.sent() == sent0, led.got().take(n0) == got0, n0 == got0.len(),
        // every file is followed further, with what is known of it, unless it is gone
        forall|i: int| 0 <= i < it.index() ==> read.dom().contains((#[trigger] it.seq()[i]).0)
            && goes_on(read[it.seq()[i].0], it.seq()[i].0, fp_map_alt@),
at before `if !watcher.dead()`:
    proof { read = read.insert(path, watcher); }
loop 4:
    invariant_except_break bytes_read <= self.max_read_bytes,
    invariant
        self.max_read_bytes <= 0x3fff_ffff_ffff_ffff,
        watcher.ok(), buffer@.len() == 0,
        waiting(lines@, led.got(), n0), led.got().take(n0) == got0, n0 == got0.len(),
loop 5 for iter it:
    invariant
        waiting(it.seq(), led.got(), n0),
        told(before, chans.sent(), led.got().take(n0 + it.index())),
at loop 5 after:
    proof { assert(led.got().take(led.got().len() as int) =~= led.got()); }
at loop 1 end:
    proof {
        assert(kept.submap_of(found));
        assert forall|k: PathBuf| #[trigger] found.dom().contains(k) implies goes_on(read[k], k, fp_map@) by { }
    }
@*/
}
fn main() {}
} // verus!
