pub type Entry = (CVec<u32>, F64);
pub type Graph = Seq<CVec<Entry>>;
// ------------------------------------------------------------ stored simplices
pub open spec fn at_key(l: Seq<Entry>, v: CVec<u32>, k: int) -> bool { 0 <= k < l.len() && l[k].0 == v }
pub open spec fn has_key(l: Seq<Entry>, v: CVec<u32>) -> bool { exists|k: int| #[trigger] at_key(l, v, k) }
pub open spec fn stored(w: Graph, v: CVec<u32>) -> bool { 1 <= v@.len() <= w.len() && has_key(w[v@.len() - 1]@, v) }
// k is the first entry holding v
pub open spec fn first_key(l: Seq<Entry>, v: CVec<u32>, k: int) -> bool { at_key(l, v, k) && forall|m: int| 0 <= m < k ==> (#[trigger] l[m]).0 != v }
pub open spec fn count_upto(w: Graph, k: int) -> int decreases k { if k <= 0 { 0 } else { count_upto(w, k - 1) + w[k - 1]@.len() } }
pub open spec fn total(w: Graph) -> int { count_upto(w, w.len() as int) }
pub proof fn lem_count_mono(w: Graph, a: int, b: int) requires 0 <= a <= b ensures 0 <= count_upto(w, a) <= count_upto(w, b) decreases b
{ if b > 0 { if a < b { lem_count_mono(w, a, b - 1); } else { lem_count_mono(w, b - 1, b - 1); } } }
// ------------------------------------------------------------ distances stored in the matrix
pub open spec fn dm(d: Seq<CVec<F64>>, i: u32, j: u32) -> real { d[i as int]@[j as int]@ }
pub open spec fn dm_in(d: Seq<CVec<F64>>, i: u32, j: u32) -> bool { i < d.len() && j < d[i as int]@.len() }
pub open spec fn verts_in(d: Seq<CVec<F64>>, v: Seq<u32>) -> bool { forall|i: int, j: int| #![trigger v[i], v[j]] 0 <= i < j < v.len() ==> dm_in(d, v[i], v[j]) }
pub open spec fn pair_le(d: Seq<CVec<F64>>, v: Seq<u32>, eps: real) -> bool { forall|i: int, j: int| #![trigger v[i], v[j]] 0 <= i < j < v.len() ==> dm(d, v[i], v[j]) <= eps }
pub open spec fn within(l: Seq<Entry>, d: Seq<CVec<F64>>, eps: real, k: int) -> Seq<CVec<u32>> decreases k
{ if k <= 0 { Seq::<CVec<u32>>::empty() } else if pair_le(d, l[k - 1].0@, eps) { within(l, d, eps, k - 1).push(l[k - 1].0) } else { within(l, d, eps, k - 1) } }
// ------------------------------------------------------------ listing
pub open spec fn as_sets(l: Seq<Entry>, k: int) -> Seq<(CSet<u32>, F64)> decreases k
{ if k <= 0 { Seq::<(CSet<u32>, F64)>::empty() } else { as_sets(l, k - 1).push((cset_of(l[k - 1].0@.to_set()), l[k - 1].1)) } }
pub open spec fn nonempty(w: Graph, k: int) -> Graph decreases k
{ if k <= 0 { Seq::<CVec<Entry>>::empty() } else if w[k - 1]@.len() > 0 { nonempty(w, k - 1).push(w[k - 1]) } else { nonempty(w, k - 1) } }
pub open spec fn by_weight(s: Seq<(CSet<u32>, F64)>) -> bool { forall|i: int, j: int| #![trigger s[i], s[j]] 0 <= i < j < s.len() ==> s[i].1@ <= s[j].1@ }
pub open spec fn listing(l: Seq<Entry>, s: Seq<(CSet<u32>, F64)>) -> bool { perm(as_sets(l, l.len() as int), s) && s.len() == l.len() && by_weight(s) }
pub proof fn lem_as_sets_len(l: Seq<Entry>, k: int) requires 0 <= k ensures as_sets(l, k).len() == k decreases k { if k > 0 { lem_as_sets_len(l, k - 1); } }
