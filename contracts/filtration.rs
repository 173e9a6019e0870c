// ---------------------------------------------------------------- filtered complexes, as listed for the persistence stage
pub type SE = (CSet<u32>, F64);
pub open spec fn lv(l: Seq<CVec<SE>>, k: int) -> Seq<SE> { if 0 <= k < l.len() { l[k]@ } else { Seq::<SE>::empty() } }
pub open spec fn vx_(e: Seq<SE>, i: int) -> Set<u32> { e[i].0.s() }
pub open spec fn in_level(e: Seq<SE>, t: Set<u32>) -> bool { exists|j: int| 0 <= j < e.len() && #[trigger] vx_(e, j) == t }
/// simplices of one level: the right size, each once, by nondecreasing weight
pub open spec fn flevel_ok(e: Seq<SE>, k: int) -> bool {
    &&& forall|i: int| 0 <= i < e.len() ==> (#[trigger] vx_(e, i)).len() == k + 1
    &&& forall|i: int, j: int| 0 <= i < j < e.len() ==> #[trigger] vx_(e, i) != #[trigger] vx_(e, j)
    &&& forall|i: int, j: int| 0 <= i < j < e.len() ==> (#[trigger] e[i]).1@ <= (#[trigger] e[j]).1@
}
pub open spec fn faces_ok(e: Seq<SE>, f: Seq<SE>) -> bool {
    forall|i: int, x: u32| 0 <= i < e.len() && vx_(e, i).contains(x) ==> in_level(f, #[trigger] vx_(e, i).remove(x))
}
/// a filtration: every face of a listed simplex is listed one level below
pub open spec fn filtered(l: Seq<CVec<SE>>) -> bool {
    &&& forall|k: int| 0 <= k < l.len() ==> flevel_ok(#[trigger] lv(l, k), k)
    &&& forall|k: int| 1 <= k < l.len() ==> faces_ok(#[trigger] lv(l, k), lv(l, k - 1))
}
