pub open spec fn dm_ok(m: Seq<CVec<F64>>, d: Seq<CVec<F64>>, i: int, j: int) -> bool {
    m[i]@[j]@ == (if i < j { dist(d[i]@, d[j]@) } else { 0real })
}
// w is a pairwise distance below eps of a pair (i,j) with i < p, or i == p and j < q
pub open spec fn is_below(d: Seq<CVec<F64>>, eps: real, p: int, q: int, w: F64) -> bool {
    exists|i: int, j: int| #![trigger d[i], d[j]] 0 <= i < j < d.len() && (i < p || (i == p && j < q)) && w@ == dist(d[i]@, d[j]@) && w@ < eps
}
pub proof fn lem_below_step(d: Seq<CVec<F64>>, eps: real, p: int, q: int, x: F64)
    requires 0 <= p < q < d.len(), x@ == dist(d[p]@, d[q]@)
    ensures forall|w: F64| #[trigger] is_below(d, eps, p, q + 1, w) <==> is_below(d, eps, p, q, w) || (w == x && x@ < eps)
{
    assert forall|w: F64| #[trigger] is_below(d, eps, p, q + 1, w) <==> is_below(d, eps, p, q, w) || (w == x && x@ < eps) by {
        if is_below(d, eps, p, q + 1, w) {
            let (i, j) = choose|i: int, j: int| #![trigger d[i], d[j]] 0 <= i < j < d.len() && (i < p || (i == p && j < q + 1)) && w@ == dist(d[i]@, d[j]@) && w@ < eps;
            if !(i < p || (i == p && j < q)) { assert(i == p && j == q); assert(f64_of(w@) == w); assert(f64_of(x@) == x); }
        }
        if w == x && x@ < eps { assert(d[p] == d[p] && d[q] == d[q]); }
    }
}
pub proof fn lem_below_row(d: Seq<CVec<F64>>, eps: real, p: int, w: F64)
    ensures is_below(d, eps, p, d.len() as int, w) <==> is_below(d, eps, p + 1, 0, w), is_below(d, eps, p + 1, p + 2, w) <==> is_below(d, eps, p + 1, 0, w), !is_below(d, eps, 0, 1, w)
{}
