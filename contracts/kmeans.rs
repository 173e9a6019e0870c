// ---------------------------------------------------------------- centroid clustering
pub struct KStep { pub lab: Seq<u32>, pub cent: Seq<CVec<F64>> }
/// l is a nearest one of cents (unless all of them are farther than the largest double)
pub open spec fn near_lab(x: Seq<F64>, cents: Seq<CVec<F64>>, l: int) -> bool {
    0 <= l < cents.len() && ((forall|c: int| 0 <= c < cents.len() ==> dist(x, cents[l]@) <= dist(x, (#[trigger] cents[c])@)) || (forall|c: int| 0 <= c < cents.len() ==> dist(x, (#[trigger] cents[c])@) >= dbl_max()))
}
/// sum of coordinate e over the points labelled c, and their number
pub open spec fn ksum(data: Seq<CVec<F64>>, lab: Seq<u32>, c: int, e: int) -> real decreases lab.len() {
    if lab.len() == 0 { 0real } else { ksum(data, lab.drop_last(), c, e) + (if lab.last() == c { data[lab.len() - 1]@[e]@ } else { 0real }) }
}
pub open spec fn kcnt(lab: Seq<u32>, c: int) -> nat decreases lab.len() { if lab.len() == 0 { 0 } else { kcnt(lab.drop_last(), c) + (if lab.last() == c { 1nat } else { 0 }) } }
pub proof fn lem_kpush(data: Seq<CVec<F64>>, lab: Seq<u32>, l: u32)
    ensures forall|c: int, e: int| #[trigger] ksum(data, lab.push(l), c, e) == ksum(data, lab, c, e) + (if l == c { data[lab.len() as int]@[e]@ } else { 0real }),
        forall|c: int| #[trigger] kcnt(lab.push(l), c) == kcnt(lab, c) + (if l == c { 1nat } else { 0 })
{ assert(lab.push(l).drop_last() =~= lab); }
pub proof fn lem_kcnt_pos(lab: Seq<u32>, i: int) requires 0 <= i < lab.len() ensures kcnt(lab, lab[i] as int) > 0 decreases lab.len()
{ if i < lab.len() - 1 { lem_kcnt_pos(lab.drop_last(), i); } }
/// every cluster that has points is represented by their arithmetic mean
pub open spec fn is_mean(data: Seq<CVec<F64>>, lab: Seq<u32>, cents: Seq<CVec<F64>>, dim: int) -> bool {
    forall|c: int, e: int| 0 <= c < cents.len() && 0 <= e < dim && kcnt(lab, c) > 0 ==> #[trigger] cents[c]@[e]@ == ksum(data, lab, c, e) / (kcnt(lab, c) as int as real)
}
/// one round: every point takes the label of a nearest previous centroid, then the centroids are recomputed
pub open spec fn kround(data: Seq<CVec<F64>>, k: int, dim: int, prev: Seq<CVec<F64>>, s: KStep) -> bool {
    &&& s.lab.len() == data.len() && s.cent.len() == k && same_dim(s.cent, dim)
    &&& forall|j: int| 0 <= j < data.len() ==> near_lab((#[trigger] data[j])@, prev, s.lab[j] as int)
    &&& forall|j: int| 0 <= j < data.len() ==> (#[trigger] s.lab[j]) < k
    &&& is_mean(data, s.lab, s.cent, dim)
}
pub open spec fn kchain(data: Seq<CVec<F64>>, k: int, dim: int, start: Seq<CVec<F64>>, tr: Seq<KStep>) -> bool {
    forall|j: int| 0 <= j < tr.len() ==> kround(data, k, dim, if j == 0 { start } else { tr[j - 1].cent }, #[trigger] tr[j])
}
/// the seeds: between one and k data points
pub open spec fn kstart(data: Seq<CVec<F64>>, k: int, start: Seq<CVec<F64>>) -> bool {
    1 <= start.len() <= k && forall|c: int| 0 <= c < start.len() ==> exists|j: int| 0 <= j < data.len() && (#[trigger] start[c]) == #[trigger] data[j]
}
/// every point carries the label of a nearest centroid among the clusters that have points
pub open spec fn knearest(data: Seq<CVec<F64>>, lab: Seq<u32>, cents: Seq<CVec<F64>>) -> bool {
    forall|j: int, c: int| 0 <= j < data.len() && 0 <= c < cents.len() && kcnt(lab, c) > 0 && dist(#[trigger] data[j]@, cents[c]@) < dbl_max() ==> dist(data[j]@, cents[lab[j] as int]@) <= dist(data[j]@, #[trigger] cents[c]@)
}
pub open spec fn km_result(data: Seq<CVec<F64>>, k: int, dim: int, iters: int, cents: Seq<CVec<F64>>, lab: Seq<u32>) -> bool {
    &&& lab.len() == data.len() && cents.len() == k && same_dim(cents, dim) && (forall|j: int| 0 <= j < lab.len() ==> (#[trigger] lab[j]) < k)
    &&& is_mean(data, lab, cents, dim)
    &&& exists|start: Seq<CVec<F64>>, tr: Seq<KStep>| #[trigger] km_trace(data, k, dim, iters, start, tr, cents, lab)
}
/// the run went through these rounds, all of them or until an assignment repeated
pub open spec fn km_trace(data: Seq<CVec<F64>>, k: int, dim: int, iters: int, start: Seq<CVec<F64>>, tr: Seq<KStep>, cents: Seq<CVec<F64>>, lab: Seq<u32>) -> bool {
    &&& kstart(data, k, start) && kchain(data, k, dim, start, tr) && 1 <= tr.len() <= iters && tr.last().lab == lab && tr.last().cent == cents
    &&& tr.len() < iters ==> tr.len() >= 2 && tr[tr.len() - 2].lab == lab && knearest(data, lab, cents)
}
pub proof fn lem_same_dist(x: Seq<F64>, a: Seq<F64>, b: Seq<F64>) requires a.len() == b.len(), x.len() <= a.len(), forall|e: int| 0 <= e < a.len() ==> a[e]@ == b[e]@ ensures sqdist(x, a) == sqdist(x, b) decreases x.len()
{ if x.len() > 0 { lem_same_dist(x.drop_last(), a, b); } }
pub proof fn lem_kconv(data: Seq<CVec<F64>>, k: int, dim: int, start: Seq<CVec<F64>>, tr: Seq<KStep>)
    requires kchain(data, k, dim, start, tr), tr.len() >= 2, tr[tr.len() - 2].lab == tr.last().lab, same_dim(data, dim)
    ensures knearest(data, tr.last().lab, tr.last().cent)
{
    let n = tr.len(); let a = tr[n - 2]; let b = tr[n - 1];
    assert(kround(data, k, dim, if n - 2 == 0 { start } else { tr[n - 3].cent }, a));
    assert(kround(data, k, dim, a.cent, b));
    let lab = b.lab; let cents = b.cent;
    assert forall|j: int, c: int| 0 <= j < data.len() && 0 <= c < cents.len() && kcnt(lab, c) > 0 && dist(#[trigger] data[j]@, cents[c]@) < dbl_max() implies dist(data[j]@, cents[lab[j] as int]@) <= dist(data[j]@, #[trigger] cents[c]@) by {
        let l = lab[j] as int;
        assert(near_lab(data[j]@, a.cent, l));
        lem_kcnt_pos(lab, j); assert(lab[j] < k);
        assert(a.cent[c]@.len() == dim && cents[c]@.len() == dim && a.cent[l]@.len() == dim && cents[l]@.len() == dim && data[j]@.len() == dim);
        assert forall|e: int| 0 <= e < dim implies a.cent[c]@[e]@ == cents[c]@[e]@ by {}
        assert forall|e: int| 0 <= e < dim implies a.cent[l]@[e]@ == cents[l]@[e]@ by {}
        lem_same_dist(data[j]@, a.cent[c]@, cents[c]@); lem_same_dist(data[j]@, a.cent[l]@, cents[l]@);
        assert(dist(data[j]@, a.cent[c]@) == dist(data[j]@, cents[c]@)); assert(dist(data[j]@, a.cent[l]@) == dist(data[j]@, cents[l]@));
    }
}
pub proof fn lem_kstart(data: Seq<CVec<F64>>, k: int, a: Seq<CVec<F64>>, b: Seq<CVec<F64>>)
    requires kstart(data, k, a), b == a || (a.len() < k && exists|j: int| 0 <= j < data.len() && b == a.push(#[trigger] data[j])) ensures kstart(data, k, b)
{
    if b != a {
        let j0 = choose|j: int| 0 <= j < data.len() && b == a.push(#[trigger] data[j]);
        assert forall|c: int| 0 <= c < b.len() implies exists|j: int| 0 <= j < data.len() && (#[trigger] b[c]) == #[trigger] data[j] by {
            if c == a.len() { assert(b[c] == data[j0]); } else { assert(a[c] == b[c]); let j = choose|j: int| 0 <= j < data.len() && a[c] == #[trigger] data[j]; assert(b[c] == data[j]); }
        }
    }
}
pub proof fn lem_kstart_dim(data: Seq<CVec<F64>>, k: int, a: Seq<CVec<F64>>, dim: int) requires kstart(data, k, a), same_dim(data, dim) ensures same_dim(a, dim)
{ assert forall|c: int| 0 <= c < a.len() implies (#[trigger] a[c])@.len() == dim by { let j = choose|j: int| 0 <= j < data.len() && a[c] == #[trigger] data[j]; assert(data[j]@.len() == dim); } }
