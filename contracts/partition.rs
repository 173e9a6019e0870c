// indices 0..n satisfying p in increasing order, and the corresponding points
pub open spec fn sel_idx(n: int, p: spec_fn(int) -> bool) -> Seq<u32> decreases n {
    if n <= 0 { Seq::<u32>::empty() } else if p(n - 1) { sel_idx(n - 1, p).push((n - 1) as u32) } else { sel_idx(n - 1, p) }
}
pub open spec fn sel_pts(d: Seq<CVec<F64>>, n: int, p: spec_fn(int) -> bool) -> Seq<CVec<F64>> decreases n {
    if n <= 0 { Seq::<CVec<F64>>::empty() } else if p(n - 1) { sel_pts(d, n - 1, p).push(d[n - 1]) } else { sel_pts(d, n - 1, p) }
}
pub open spec fn by_label(labels: Seq<u32>, c: int) -> spec_fn(int) -> bool { |i: int| labels[i] == c }
pub open spec fn by_radius(d: Seq<CVec<F64>>, cents: Seq<CVec<F64>>, rad: real, c: int) -> spec_fn(int) -> bool { |i: int| dist(d[i]@, cents[c]@) < rad }
pub open spec fn by_boundary(labels: Seq<u32>, b: Seq<CSet<u32>>, c: int) -> spec_fn(int) -> bool { |i: int| b[c].s().contains(labels[i]) }
// the selections mean what the property says
pub proof fn lem_sel(d: Seq<CVec<F64>>, n: int, p: spec_fn(int) -> bool)
    requires 0 <= n <= d.len(), n <= 0x7fff_ffff
    ensures sorted_lt(sel_idx(n, p)), sel_idx(n, p).len() == sel_pts(d, n, p).len(),
        forall|k: int| 0 <= k < sel_idx(n, p).len() ==> 0 <= (#[trigger] sel_idx(n, p)[k]) < n && p(sel_idx(n, p)[k] as int) && sel_pts(d, n, p)[k] == d[sel_idx(n, p)[k] as int],
        forall|i: int| 0 <= i < n && #[trigger] p(i) ==> sel_idx(n, p).contains(i as u32),
    decreases n
{
    if n > 0 {
        lem_sel(d, n - 1, p);
        let a = sel_idx(n - 1, p); let b = sel_idx(n, p);
        assert forall|i: int| 0 <= i < n && #[trigger] p(i) implies b.contains(i as u32) by {
            if i == n - 1 { assert(b[a.len() as int] == i as u32); }
            else { assert(a.contains(i as u32)); let k = choose|k: int| 0 <= k < a.len() && a[k] == i as u32; assert(b[k] == i as u32); }
        }
    }
}
