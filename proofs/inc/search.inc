/// slice::binary_search_by, on a slice ordered with respect to the comparison
#[verifier::external_body]
pub fn search_by<T, F: Fn(&T) -> Ordering>(v: &Vec<T>, f: F, Ghost(c): Ghost<Seq<Ordering>>) -> (r: Result<usize, usize>)
    requires
        c.len() == v@.len(),
        forall|j: int| 0 <= j < v@.len() ==> f.requires((&#[trigger] v@[j],)),
        forall|j: int, o: Ordering| 0 <= j < v@.len() && #[trigger] f.ensures((&v@[j],), o) ==> o == c[j],
        forall|j: int, k: int| 0 <= j < k < c.len() && #[trigger] c[j] == Ordering::Greater ==> #[trigger] c[k] == Ordering::Greater,
        forall|j: int, k: int| 0 <= j < k < c.len() && #[trigger] c[j] == Ordering::Equal ==> #[trigger] c[k] != Ordering::Less,
    ensures
        match r {
            Ok(i) => i < v@.len() && c[i as int] == Ordering::Equal,
            Err(i) => i <= v@.len() && (forall|j: int| 0 <= j < i ==> #[trigger] c[j] == Ordering::Less)
                && (forall|j: int| i <= j < c.len() ==> #[trigger] c[j] == Ordering::Greater),
        }
{ v.binary_search_by(f) }
pub open spec fn order(a: int, b: int) -> Ordering {
    if a < b { Ordering::Less } else if a == b { Ordering::Equal } else { Ordering::Greater }
}
