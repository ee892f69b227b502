// texts as the bytes they are made of, cut at byte positions as the code does
pub uninterp spec fn sb(s: &str) -> Seq<u8>;
/// whether a text may be cut there
pub uninterp spec fn cut_ok(s: Seq<u8>, i: int) -> bool;
pub broadcast axiom fn ax_same(a: &str, b: &str)
    ensures #![trigger sb(a), sb(b)] (sb(a) == sb(b)) == (a@ == b@), (a@ == b@) == (a == b);
pub broadcast axiom fn ax_cut_ends(s: Seq<u8>)
    ensures #![trigger cut_ok(s, 0)] cut_ok(s, 0);
pub broadcast axiom fn ax_cut_end(s: Seq<u8>)
    ensures #![trigger cut_ok(s, s.len() as int)] cut_ok(s, s.len() as int);
/// a byte below 128 is a character of its own
pub broadcast axiom fn ax_cut_ascii(s: Seq<u8>, i: int)
    requires 0 <= i < s.len(), s[i] < 128
    ensures #![trigger cut_ok(s, i)] cut_ok(s, i);
pub broadcast axiom fn ax_cut_behind(s: Seq<u8>, i: int)
    requires 0 < i <= s.len(), s[i - 1] < 128
    ensures #![trigger cut_ok(s, i)] cut_ok(s, i);
pub broadcast axiom fn ax_empty(s: &str)
    ensures #![trigger sb(s)] (sb(s).len() == 0) == (s@.len() == 0);
/// a text of one simple character
pub broadcast axiom fn ax_one(s: &str)
    requires s@.len() == 1, (s@[0] as u32) < 128
    ensures #![trigger sb(s)] sb(s) == seq![s@[0] as u8];
pub broadcast group texts { ax_same, ax_one, ax_empty, ax_cut_ends, ax_cut_end, ax_cut_ascii, ax_cut_behind }
#[verifier::external_body]
pub fn str_len(s: &str) -> (r: usize) ensures r == sb(s).len() { unimplemented!() }
#[verifier::external_body]
pub fn str_empty(s: &str) -> (r: bool) ensures r == (sb(s).len() == 0) { unimplemented!() }
#[verifier::external_body]
pub fn cut(s: &str, a: usize, b: usize) -> (r: &str)
    requires a <= b <= sb(s).len(), cut_ok(sb(s), a as int), cut_ok(sb(s), b as int)
    ensures sb(r) == sb(s).subrange(a as int, b as int)
{ unimplemented!() }
pub fn cut_from(s: &str, a: usize) -> (r: &str)
    requires a <= sb(s).len(), cut_ok(sb(s), a as int)
    ensures sb(r) == sb(s).subrange(a as int, sb(s).len() as int)
{ proof { broadcast use texts; assert(cut_ok(sb(s), sb(s).len() as int)); } let n = str_len(s); cut(s, a, n) }
/// `a..=b`
pub fn cut_incl(s: &str, a: usize, b: usize) -> (r: &str)
    requires a <= b + 1 <= sb(s).len(), b < usize::MAX, cut_ok(sb(s), a as int), cut_ok(sb(s), b + 1)
    ensures sb(r) == sb(s).subrange(a as int, b + 1)
{ cut(s, a, b + 1) }
pub open spec fn first(s: Seq<u8>, c: u8) -> Option<int>
    decreases s.len()
{
    if s.len() == 0 { None } else if s[0] == c { Some(0) } else {
        match first(s.skip(1), c) { Some(i) => Some(i + 1), None => None }
    }
}
pub proof fn lemma_first(s: Seq<u8>, c: u8)
    ensures match first(s, c) {
        Some(i) => 0 <= i < s.len() && s[i] == c && (forall|j: int| 0 <= j < i ==> s[j] != c),
        None => forall|j: int| 0 <= j < s.len() ==> s[j] != c }
    decreases s.len()
{
    if s.len() > 0 && s[0] != c {
        lemma_first(s.skip(1), c);
        assert(forall|j: int| 1 <= j < s.len() ==> #[trigger] s[j] == s.skip(1)[j - 1]);
    }
}
/// `find` of a character below 128
#[verifier::external_body]
pub fn find_byte(s: &str, c: char) -> (r: Option<usize>)
    requires (c as u32) < 128
    ensures match r { Some(i) => first(sb(s), c as u8) == Some(i as int), None => first(sb(s), c as u8) is None }
{ unimplemented!() }
pub fn find(s: &str, c: char) -> (r: Option<usize>)
    requires (c as u32) < 128
    ensures match r {
        Some(i) => first(sb(s), c as u8) == Some(i as int) && i < sb(s).len() && sb(s)[i as int] == c as u8,
        None => first(sb(s), c as u8) is None }
{ proof { lemma_first(sb(s), c as u8); } find_byte(s, c) }
pub uninterp spec fn num(s: Seq<u8>) -> Option<f64>;
/// a number has no other than simple characters, and at least one
pub broadcast axiom fn ax_num(s: Seq<u8>)
    requires num(s) is Some
    ensures #![trigger num(s)] s.len() > 0, s[0] < 128;
pub struct BadNumber {}
#[verifier::external_body]
pub fn f64_from(s: &str) -> (r: Result<f64, BadNumber>)
    ensures match num(sb(s)) { Some(x) => r == Ok::<f64, BadNumber>(x), None => r is Err }
{ unimplemented!() }
pub uninterp spec fn lines(s: Seq<u8>) -> Seq<Seq<u8>>;
#[verifier::external_body]
pub fn lines_of(s: &str) -> (r: Vec<&str>)
    ensures r@.map_values(|x: &str| sb(x)) == lines(sb(s))
{ unimplemented!() }
/*@ rewrites
rw `(&$s[$*a..]).find($*c)` => `find(cut_from($s, $*a), $*c)`
rw `$s[$*a..].find($*c)` => `find(cut_from($s, $*a), $*c)`
rw `&$s[$*a..=$*b]` => `cut_incl($s, $*a, $*b)`
rw `f64::from_str($*a)` => `f64_from($*a)`
@*/
