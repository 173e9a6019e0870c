// ---------------------------------------------------------------- filtered complexes and the merge tree of components
pub uninterp spec fn expanded(c: SimplexBase, d: int) -> SimplexBase;
pub uninterp spec fn listing(c: SimplexBase, eps: real) -> CVec<CVec<SE>>;
/// the complex satisfies the invariant of its class: `rips` (array list, kept by every function of P05) or `tree` (P06)
pub uninterp spec fn built(c: SimplexBase) -> bool;
#[verifier::external_body] pub fn ext_expand(c: &mut SimplexBase, d: i32) requires built(*old(c)) ensures *final(c) == expanded(*old(c), d as int), built(*final(c)) { unimplemented!() }
/// proved for both classes of complex: `listing_is_filtration` (P05), `tree_listing_is_filtration` (P06)
#[verifier::external_body] pub fn ext_edges(c: &SimplexBase, e: F64) -> (r: CVec<CVec<SE>>) requires built(*c) ensures r == listing(*c, e@), filtered(r@) { unimplemented!() }
/// the complex the stage works on
pub open spec fn work(c: SimplexBase, dim: int) -> SimplexBase { if dim > 0 { expanded(c, dim + 1) } else { c } }
// ---- components
pub open spec fn cross(a: Set<u32>, s: Set<u32>) -> bool { exists|x: u32, y: u32| #[trigger] a.contains(x) && #[trigger] a.contains(y) && s.contains(x) && !s.contains(y) }
pub open spec fn disj(a: Set<u32>, b: Set<u32>) -> bool { forall|x: u32| a.contains(x) ==> !#[trigger] b.contains(x) }
/// no edge before k leaves s: s is a union of components of the graph of the first k edges
pub open spec fn closed(e: Seq<SE>, k: int, s: Set<u32>) -> bool { forall|j: int| 0 <= j < k ==> !cross(#[trigger] vx_(e, j), s) }
/// edge k joins two different components of the graph of the earlier edges
pub open spec fn joins(e: Seq<SE>, k: int) -> bool { exists|s: Set<u32>| #[trigger] closed(e, k, s) && cross(vx_(e, k), s) }
pub open spec fn jw(e: Seq<SE>, k: int) -> Seq<F64> decreases k
{ if k <= 0 { Seq::<F64>::empty() } else if joins(e, k - 1) { jw(e, k - 1).push(e[k - 1].1) } else { jw(e, k - 1) } }
pub open spec fn ji(e: Seq<SE>, k: int) -> Seq<u32> decreases k
{ if k <= 0 { Seq::<u32>::empty() } else if joins(e, k - 1) { ji(e, k - 1).push((k - 1) as u32) } else { ji(e, k - 1) } }
// ---- text of the output
pub open spec fn line0(w: real) -> Seq<u8> { lit("0,0,")@ + dec_r(w)@ + lit("\n")@ }
pub open spec fn jtext(w: Seq<F64>, k: int) -> Seq<u8> decreases k { if k <= 0 { Seq::<u8>::empty() } else { jtext(w, k - 1) + line0(w[k - 1]@) } }
pub open spec fn esstext(eps: real, k: int) -> Seq<u8> decreases k { if k <= 0 { Seq::<u8>::empty() } else { esstext(eps, k - 1) + line0(eps) } }
pub open spec fn h0text(l: Seq<CVec<SE>>, eps: real) -> Seq<u8> {
    let e = lv(l, 1); let w = jw(e, e.len() as int);
    jtext(w, w.len() as int) + esstext(eps, lv(l, 0).len() as int - w.len() as int)
}
/// the zero-dimensional rows of the interval table: after what was there before, one row per interval, in the same order; no other row has dimension zero
#[verifier::opaque]
pub open spec fn rows0(t0: Seq<BettiBoundaryTableEntry>, t: Seq<BettiBoundaryTableEntry>, z: Seq<F64>) -> bool {
    &&& t.len() >= t0.len() + z.len()
    &&& forall|i: int| 0 <= i < t0.len() ==> #[trigger] t[i] == t0[i]
    &&& forall|i: int| 0 <= i < z.len() ==> (#[trigger] t[t0.len() + i]).bettiDim == 0 && t[t0.len() + i].birth@ == 0real && t[t0.len() + i].death@ == z[i]@
    &&& forall|i: int| t0.len() + z.len() <= i < t.len() ==> (#[trigger] t[i]).bettiDim != 0
}
/// the intervals of dimension zero: the joining edges, then the components that never end
pub open spec fn h0ends(l: Seq<CVec<SE>>, eps: F64) -> Seq<F64> {
    let w = jw(lv(l, 1), lv(l, 1).len() as int);
    w + Seq::<F64>::new((if lv(l, 0).len() >= w.len() { lv(l, 0).len() - w.len() } else { 0 }) as nat, |i: int| eps)
}
pub proof fn lem_rows0_init(t: Seq<BettiBoundaryTableEntry>) ensures rows0(t, t, Seq::<F64>::empty()) { reveal(rows0); }
pub proof fn lem_rows0_zero(t0: Seq<BettiBoundaryTableEntry>, t: Seq<BettiBoundaryTableEntry>, z: Seq<F64>, x: BettiBoundaryTableEntry, w: F64)
    requires rows0(t0, t, z), t.len() == t0.len() + z.len(), x.bettiDim == 0, x.birth@ == 0real, x.death@ == w@
    ensures rows0(t0, t.push(x), z.push(w))
{
    reveal(rows0);
    let u = t.push(x); let y = z.push(w);
    assert forall|i: int| 0 <= i < y.len() implies (#[trigger] u[t0.len() + i]).bettiDim == 0 && u[t0.len() + i].birth@ == 0real && u[t0.len() + i].death@ == y[i]@ by { if i < z.len() { assert(u[t0.len() + i] == t[t0.len() + i]); } }
    assert forall|i: int| 0 <= i < t0.len() implies #[trigger] u[i] == t0[i] by { assert(t[i] == t0[i]); }
}
pub proof fn lem_rows0_high(t0: Seq<BettiBoundaryTableEntry>, t: Seq<BettiBoundaryTableEntry>, z: Seq<F64>, x: BettiBoundaryTableEntry)
    requires rows0(t0, t, z), x.bettiDim != 0
    ensures rows0(t0, t.push(x), z)
{
    reveal(rows0);
    let u = t.push(x);
    assert forall|i: int| 0 <= i < z.len() implies (#[trigger] u[t0.len() + i]).bettiDim == 0 && u[t0.len() + i].birth@ == 0real && u[t0.len() + i].death@ == z[i]@ by { assert(u[t0.len() + i] == t[t0.len() + i]); }
    assert forall|i: int| 0 <= i < t0.len() implies #[trigger] u[i] == t0[i] by { assert(t[i] == t0[i]); }
}
pub struct Bar { pub d: int, pub b: real, pub e: real }
pub open spec fn bline(x: Bar) -> Seq<u8> { dec_i(x.d)@ + lit(",")@ + dec_r(x.b)@ + lit(",")@ + dec_r(x.e)@ + lit("\n")@ }
pub open spec fn btext(l: Seq<Bar>, k: int) -> Seq<u8> decreases k { if k <= 0 { Seq::<u8>::empty() } else { btext(l, k - 1) + bline(l[k - 1]) } }
pub open spec fn higher(l: Seq<Bar>) -> bool { forall|i: int| 0 <= i < l.len() ==> (#[trigger] l[i]).d >= 1 }
pub proof fn lem_btext(l: Seq<Bar>, m: Seq<Bar>, k: int) requires 0 <= k <= l.len(), k <= m.len(), forall|i: int| 0 <= i < k ==> l[i] == m[i] ensures btext(l, k) == btext(m, k) decreases k
{ if k > 0 { lem_btext(l, m, k - 1); } }
pub proof fn lem_estr() ensures lit("")@ == Seq::<u8>::empty() { reveal_strlit(""); assert(lit("")@ =~= Seq::<u8>::empty()); }
pub proof fn lem_btext_push(l: Seq<Bar>, x: Bar) ensures btext(l.push(x), l.len() as int + 1) == btext(l, l.len() as int) + bline(x)
{ lem_btext(l.push(x), l, l.len() as int); }
pub proof fn lem_jw_sorted(e: Seq<SE>, k: int) requires 0 <= k <= e.len(), flevel_ok(e, 1)
    ensures forall|i: int, j: int| 0 <= i < j < jw(e, k).len() ==> (#[trigger] jw(e, k)[i])@ <= (#[trigger] jw(e, k)[j])@, forall|i: int| 0 <= i < jw(e, k).len() && k < e.len() ==> (#[trigger] jw(e, k)[i])@ <= e[k].1@,
    decreases k
{
    if k > 0 {
        lem_jw_sorted(e, k - 1);
        if k < e.len() { assert(e[k - 1].1@ <= e[k].1@); }
        let w = jw(e, k); let w1 = jw(e, k - 1);
        assert forall|i: int| 0 <= i < w.len() && k < e.len() implies (#[trigger] jw(e, k)[i])@ <= e[k].1@ by { if i < w1.len() { assert(w[i] == w1[i]); assert(jw(e, k - 1)[i]@ <= e[k - 1].1@); } }
        assert forall|i: int, j: int| 0 <= i < j < w.len() implies (#[trigger] jw(e, k)[i])@ <= (#[trigger] jw(e, k)[j])@ by { assert(w[i] == w1[i]); if j < w1.len() { assert(w[j] == w1[j]); assert(jw(e, k - 1)[i]@ <= jw(e, k - 1)[j]@); } else { assert(jw(e, k - 1)[i]@ <= e[k - 1].1@); } }
    }
}
// ---- sizes
pub open spec fn csum(c: Seq<CSet<u32>>) -> int decreases c.len() { if c.len() == 0 { 0 } else { csum(c.drop_last()) + c.last().s().len() - 1 } }
pub open spec fn part(c: Seq<CSet<u32>>) -> bool { forall|i: int, j: int| 0 <= i < j < c.len() ==> disj((#[trigger] c[i]).s(), (#[trigger] c[j]).s()) }
pub open spec fn within(c: Seq<CSet<u32>>, v: Set<u32>) -> bool { forall|i: int| 0 <= i < c.len() ==> (#[trigger] c[i]).s().subset_of(v) }
pub proof fn lem_csum_push(c: Seq<CSet<u32>>, x: CSet<u32>) ensures csum(c.push(x)) == csum(c) + x.s().len() - 1
{ assert(c.push(x).drop_last() =~= c); }
pub proof fn lem_csum_take(c: Seq<CSet<u32>>, i: int) requires 0 <= i < c.len() ensures csum(c.take(i + 1)) == csum(c.take(i)) + c[i].s().len() - 1
{ assert(c.take(i + 1) =~= c.take(i).push(c[i])); lem_csum_push(c.take(i), c[i]); }
pub proof fn lem_union_card(a: Set<u32>, b: Set<u32>) ensures a.union(b).len() + a.intersect(b).len() == a.len() + b.len()
    decreases a.len()
{
    if a.len() == 0 { assert(a =~= Set::<u32>::empty()); assert(a.union(b) =~= b); assert(a.intersect(b) =~= Set::<u32>::empty()); }
    else {
        let x = a.choose(); let a1 = a.remove(x);
        lem_union_card(a1, b);
        if b.contains(x) { assert(a1.union(b) =~= a.union(b)); assert(a.intersect(b).remove(x) =~= a1.intersect(b)); assert(a.intersect(b).contains(x)); }
        else { assert(a.union(b).remove(x) =~= a1.union(b)); assert(a.union(b).contains(x)); assert(a.intersect(b) =~= a1.intersect(b)); }
    }
}
pub proof fn lem_subset_card(a: Set<u32>, b: Set<u32>) requires a.subset_of(b) ensures a.len() <= b.len(), a.len() == b.len() ==> a == b
{ lem_union_card(b.difference(a), a); assert(b.difference(a).union(a) =~= b); assert(b.difference(a).intersect(a) =~= Set::<u32>::empty());
  if a.len() == b.len() { assert(b.difference(a) =~= Set::<u32>::empty()); assert(a =~= b) by { assert forall|x: u32| b.contains(x) implies a.contains(x) by { assert(!b.difference(a).contains(x)); } } } }
// the union of the sets
pub open spec fn all_of(c: Seq<CSet<u32>>) -> Set<u32> decreases c.len() { if c.len() == 0 { Set::<u32>::empty() } else { all_of(c.drop_last()).union(c.last().s()) } }
pub proof fn lem_all_of(c: Seq<CSet<u32>>, v: Set<u32>) requires part(c), within(c, v)
    ensures all_of(c).subset_of(v), all_of(c).len() == csum(c) + c.len(), forall|x: u32| #[trigger] all_of(c).contains(x) ==> exists|i: int| 0 <= i < c.len() && (#[trigger] c[i]).s().contains(x)
    decreases c.len()
{
    if c.len() > 0 {
        let d = c.drop_last(); let l = c.last().s();
        lem_all_of(d, v);
        assert(all_of(d).intersect(l) =~= Set::<u32>::empty()) by { assert forall|x: u32| !(all_of(d).contains(x) && l.contains(x)) by { if all_of(d).contains(x) { let i = choose|i: int| 0 <= i < d.len() && (#[trigger] d[i]).s().contains(x); assert(disj(c[i].s(), c[c.len() - 1].s())); assert(c[i] == d[i]); } } }
        lem_union_card(all_of(d), l);
        assert(c[c.len() - 1].s().subset_of(v));
        assert forall|x: u32| #[trigger] all_of(c).contains(x) implies exists|i: int| 0 <= i < c.len() && (#[trigger] c[i]).s().contains(x) by {
            if all_of(d).contains(x) { let i = choose|i: int| 0 <= i < d.len() && (#[trigger] d[i]).s().contains(x); assert(c[i].s().contains(x)); } else { assert(c[c.len() - 1].s().contains(x)); }
        }
    }
}
/// vertices of the complex
pub open spec fn verts(e: Seq<SE>, k: int) -> Set<u32> decreases k { if k <= 0 { Set::<u32>::empty() } else { verts(e, k - 1).union(vx_(e, k - 1)) } }
pub proof fn lem_verts(e: Seq<SE>, k: int) requires flevel_ok(e, 0), 0 <= k <= e.len()
    ensures verts(e, k).len() == k, forall|j: int| 0 <= j < k ==> (#[trigger] vx_(e, j)).subset_of(verts(e, k)), forall|x: u32| #[trigger] verts(e, k).contains(x) ==> exists|j: int| 0 <= j < k && (#[trigger] vx_(e, j)).contains(x)
    decreases k
{
    if k > 0 {
        lem_verts(e, k - 1); let a = verts(e, k - 1); let b = vx_(e, k - 1);
        lem_union_card(a, b);
        assert(a.intersect(b) =~= Set::<u32>::empty()) by {
            assert forall|x: u32| !(a.contains(x) && b.contains(x)) by {
                if a.contains(x) && b.contains(x) { let j = choose|j: int| 0 <= j < k - 1 && (#[trigger] vx_(e, j)).contains(x); lem_single(vx_(e, j), x); lem_single(b, x); assert(vx_(e, j) == b); assert(false); }
            }
        }
    }
}
pub proof fn lem_single(a: Set<u32>, x: u32) requires a.len() == 1, a.contains(x) ensures a == Set::<u32>::empty().insert(x)
{ lem_subset_card(Set::<u32>::empty().insert(x), a); }
pub proof fn lem_pair(a: Set<u32>, x: u32, y: u32) requires a.len() == 2, a.contains(x), a.contains(y), x != y ensures a == Set::<u32>::empty().insert(x).insert(y)
{ lem_subset_card(Set::<u32>::empty().insert(x).insert(y), a); }
// an edge has both its vertices among the vertices of the complex
pub proof fn lem_edge_verts(l: Seq<CVec<SE>>, k: int) requires filtered(l), l.len() >= 2, 0 <= k < lv(l, 1).len()
    ensures vx_(lv(l, 1), k).subset_of(verts(lv(l, 0), lv(l, 0).len() as int)), lv(l, 0).len() >= 2
{
    let e = lv(l, 1); let f = lv(l, 0); let v = verts(f, f.len() as int); let a = vx_(e, k);
    assert(flevel_ok(f, 0)); assert(flevel_ok(e, 1)); assert(faces_ok(lv(l, 1), lv(l, 1 - 1)));
    lem_verts(f, f.len() as int);
    assert forall|x: u32| a.contains(x) implies v.contains(x) by {
        let y = a.remove(x).choose(); assert(a.remove(x).len() == 1); assert(a.remove(x).contains(y));
        assert(in_level(f, vx_(e, k).remove(y)));
        let j = choose|j: int| 0 <= j < f.len() && #[trigger] vx_(f, j) == vx_(e, k).remove(y);
        assert(vx_(f, j).contains(x));
    }
    lem_subset_card(a, v);
}
// intersection of an edge with a component: none, one or both vertices
pub proof fn lem_cut(a: Set<u32>, c: Set<u32>) requires a.len() == 2
    ensures (a.intersect(c).len() == 1) == cross(a, c), (a.intersect(c).len() == 2) == a.subset_of(c), (a.intersect(c).len() == 0) == disj(a, c), a.intersect(c).len() <= 2
{
    lem_subset_card(a.intersect(c), a);
    let x = a.choose(); let y = a.remove(x).choose();
    assert(a.remove(x).len() == 1); assert(a.remove(x).contains(y)); assert(a.contains(x) && a.contains(y) && x != y);
    lem_pair(a, x, y);
    let i = a.intersect(c);
    if c.contains(x) && c.contains(y) { assert(i =~= a); }
    else if c.contains(x) { assert(i =~= Set::<u32>::empty().insert(x)); assert(cross(a, c)); }
    else if c.contains(y) { assert(i =~= Set::<u32>::empty().insert(y)); assert(cross(a, c)); }
    else { assert(i =~= Set::<u32>::empty()); }
    if !c.contains(x) || !c.contains(y) { assert(!a.subset_of(c)); }
    if c.contains(x) { assert(!disj(a, c)); }
    if c.contains(y) { assert(!disj(a, c)); }
}
pub proof fn lem_uncrossed(a: Set<u32>, b: Set<u32>, s: Set<u32>, x: u32) requires !cross(a, s), !cross(b, s), a.contains(x), b.contains(x) ensures !cross(a.union(b), s)
{
    if cross(a.union(b), s) {
        let (p, q) = choose|p: u32, q: u32| #[trigger] a.union(b).contains(p) && #[trigger] a.union(b).contains(q) && s.contains(p) && !s.contains(q);
        assert(a.contains(p) || b.contains(p)); assert(a.contains(q) || b.contains(q));
        if s.contains(x) { assert(a.contains(x) && b.contains(x)); } 
    }
}
pub open spec fn inside(a: Set<u32>, m: Seq<CSet<u32>>) -> bool { exists|i: int| 0 <= i < m.len() && a.subset_of((#[trigger] m[i]).s()) }
#[verifier::opaque]
pub open spec fn covers(e: Seq<SE>, k: int, m: Seq<CSet<u32>>) -> bool { forall|j: int| 0 <= j < k ==> inside(#[trigger] vx_(e, j), m) }
#[verifier::opaque]
pub open spec fn solid(e: Seq<SE>, k: int, m: Seq<CSet<u32>>) -> bool { forall|s: Set<u32>, i: int| #[trigger] closed(e, k, s) && 0 <= i < m.len() ==> !cross((#[trigger] m[i]).s(), s) }
// ---- invariant of the spanning tree loop before edge k
#[verifier::opaque]
pub open spec fn forest(e: Seq<SE>, v: Set<u32>, k: int, c: Seq<CSet<u32>>) -> bool {
    &&& part(c) && within(c, v)
    &&& covers(e, k, c)
    &&& solid(e, k, c)
    &&& csum(c) == jw(e, k).len()
}
#[verifier::opaque]
pub open spec fn origin(c: Seq<CSet<u32>>, p: int, d: Seq<CSet<u32>>, a: Set<u32>) -> bool { forall|i: int| 0 <= i < d.len() ==> exists|q: int| 0 <= q < p && #[trigger] c[q] == #[trigger] d[i] && !cross(a, c[q].s()) }
#[verifier::opaque]
pub open spec fn kept(c: Seq<CSet<u32>>, p: int, d: Seq<CSet<u32>>, a: Set<u32>) -> bool { forall|q: int| 0 <= q < p && !cross(a, (#[trigger] c[q]).s()) ==> d.contains(c[q]) }
// ---- invariant of the pass over the components: p is the number of components seen, d the components kept, t the merged one
#[verifier::opaque]
pub open spec fn merging(e: Seq<SE>, v: Set<u32>, k: int, c: Seq<CSet<u32>>, p: int, d: Seq<CSet<u32>>, found: bool, br: bool, t: Set<u32>) -> bool {
    let a = vx_(e, k);
    &&& part(d) && within(d, v)
    &&& origin(c, p, d, a) && kept(c, p, d, a)
    &&& forall|q: int| 0 <= q < p && cross(a, (#[trigger] c[q]).s()) ==> found && c[q].s().subset_of(t)
    &&& csum(c.take(p)) == csum(d) + (if found { t.len() - 2 } else { 0 })
    &&& found ==> {
        &&& exists|q: int| 0 <= q < p && cross(a, (#[trigger] c[q]).s())
        &&& a.subset_of(t) && t.subset_of(v)
        &&& forall|q: int| p <= q < c.len() ==> (#[trigger] c[q]).s().intersect(t) =~= c[q].s().intersect(a)
        &&& forall|i: int| 0 <= i < d.len() ==> disj((#[trigger] d[i]).s(), t)
        &&& forall|s: Set<u32>| #[trigger] closed(e, k + 1, s) ==> !cross(t, s)
      }
    &&& !found ==> d == c.take(p) && t =~= Set::<u32>::empty()
    &&& br ==> exists|q: int| 0 <= q < p && a.subset_of((#[trigger] c[q]).s())
    &&& !br ==> forall|q: int| 0 <= q < p ==> !a.subset_of((#[trigger] c[q]).s())
}
pub proof fn lem_closed_less(e: Seq<SE>, k: int, m: int, s: Set<u32>) requires closed(e, m, s), k <= m ensures closed(e, k, s)
{ assert forall|j: int| 0 <= j < k implies !cross(#[trigger] vx_(e, j), s) by { } }
pub proof fn lem_forest_init(e: Seq<SE>, v: Set<u32>) ensures forest(e, v, 0, Seq::<CSet<u32>>::empty())
{ reveal(forest); reveal(covers); reveal(solid); }
pub proof fn lem_merge_init(e: Seq<SE>, v: Set<u32>, k: int, c: Seq<CSet<u32>>, t: Set<u32>) requires t.len() == 0
    ensures merging(e, v, k, c, 0, Seq::<CSet<u32>>::empty(), false, false, t)
{ reveal(merging); reveal(origin); reveal(kept); assert(c.take(0) =~= Seq::<CSet<u32>>::empty()); assert(t =~= Set::<u32>::empty()); }
pub proof fn lem_origin(c: Seq<CSet<u32>>, p: int, d: Seq<CSet<u32>>, a: Set<u32>, i: int) -> (q: int) requires origin(c, p, d, a), 0 <= i < d.len() ensures 0 <= q < p, c[q] == d[i], !cross(a, c[q].s())
{ reveal(origin); choose|q: int| 0 <= q < p && #[trigger] c[q] == d[i] && !cross(a, c[q].s()) }
pub proof fn lem_merge_join(e: Seq<SE>, v: Set<u32>, k: int, c: Seq<CSet<u32>>, p: int, d: Seq<CSet<u32>>, found: bool, br: bool, t: Set<u32>, u: Set<u32>)
    requires forest(e, v, k, c), merging(e, v, k, c, p, d, found, br, t), 0 <= p < c.len(), 0 <= k, vx_(e, k).len() == 2, vx_(e, k).subset_of(v), cross(vx_(e, k), c[p].s()),
        u == t.union(c[p].s()).union(vx_(e, k))
    ensures merging(e, v, k, c, p + 1, d, true, br, u)
{
    reveal(forest); reveal(solid); reveal(merging);
    let a = vx_(e, k); let cp_ = c[p].s();
    let (x, y) = choose|x: u32, y: u32| #[trigger] a.contains(x) && #[trigger] a.contains(y) && cp_.contains(x) && !cp_.contains(y);
    lem_pair(a, x, y);
    assert(c[p].s().subset_of(v));
    if !found { assert(t =~= Set::<u32>::empty()); }
    assert(a.contains(x) && a.contains(y) && cp_.contains(x) && !cp_.contains(y));
    assert(cp_.intersect(a) =~= Set::<u32>::empty().insert(x));
    lem_csum_take(c, p);
    if found {
        assert(cp_.intersect(t) =~= cp_.intersect(a));
        assert(u =~= t.union(cp_)); lem_union_card(t, cp_); assert(t.intersect(cp_) =~= cp_.intersect(t));
    } else {
        assert(u =~= cp_.union(a)); lem_union_card(cp_, a);
    }
    assert(cross(a, c[p].s()));
    assert forall|q: int| p + 1 <= q < c.len() implies (#[trigger] c[q]).s().intersect(u) =~= c[q].s().intersect(a) by {
        assert(disj(c[p].s(), c[q].s()));
        if found { assert(c[q].s().intersect(t) =~= c[q].s().intersect(a)); }
        assert forall|z: u32| c[q].s().intersect(u).contains(z) implies c[q].s().intersect(a).contains(z) by {
            if t.contains(z) { assert(c[q].s().intersect(t).contains(z)); }
        }
    }
    assert forall|i: int| 0 <= i < d.len() implies disj((#[trigger] d[i]).s(), u) by {
        let q = lem_origin(c, p, d, a, i);
        assert(disj(c[q].s(), c[p].s()));
        assert forall|z: u32| d[i].s().contains(z) implies !#[trigger] u.contains(z) by {
            if a.contains(z) { assert(a.contains(x)); if c[q].s().contains(x) { assert(!c[p].s().contains(x)); } assert(cross(a, c[q].s())); }
            if found { assert(disj(d[i].s(), t)); }
        }
    }
    assert forall|s: Set<u32>| #[trigger] closed(e, k + 1, s) implies !cross(u, s) by {
        lem_closed_less(e, k, k + 1, s);
        assert(!cross(vx_(e, k), s));
        assert(!cross(c[p].s(), s));
        lem_uncrossed(cp_, a, s, x);
        if found { assert(!cross(t, s)); assert(t.contains(x)); lem_uncrossed(t, cp_.union(a), s, x); assert(u =~= t.union(cp_.union(a))); } else { assert(u =~= cp_.union(a)); }
    }
    assert(kept(c, p + 1, d, a)) by { reveal(kept); }
    assert forall|q: int| 0 <= q < p + 1 && cross(a, (#[trigger] c[q]).s()) implies c[q].s().subset_of(u) by { }
    if br { let q = choose|q: int| 0 <= q < p && a.subset_of((#[trigger] c[q]).s()); assert(a.subset_of(c[q].s())); }
    else { assert forall|q: int| 0 <= q < p + 1 implies !a.subset_of((#[trigger] c[q]).s()) by { if q == p { assert(a.contains(y)); } } }
    assert(origin(c, p + 1, d, a)) by { reveal(origin); }
}
pub proof fn lem_merge_keep(e: Seq<SE>, v: Set<u32>, k: int, c: Seq<CSet<u32>>, p: int, d: Seq<CSet<u32>>, found: bool, br: bool, t: Set<u32>, b2: bool)
    requires forest(e, v, k, c), merging(e, v, k, c, p, d, found, br, t), 0 <= p < c.len(), 0 <= k, vx_(e, k).len() == 2, !cross(vx_(e, k), c[p].s()),
        b2 == (br || vx_(e, k).subset_of(c[p].s()))
    ensures merging(e, v, k, c, p + 1, d.push(c[p]), found, b2, t)
{
    reveal(forest); reveal(merging);
    let a = vx_(e, k); let d2 = d.push(c[p]);
    lem_csum_take(c, p); lem_csum_push(d, c[p]);
    assert(origin(c, p + 1, d2, a)) by { reveal(origin);
        assert forall|i: int| 0 <= i < d2.len() implies exists|q: int| 0 <= q < p + 1 && #[trigger] c[q] == #[trigger] d2[i] && !cross(a, c[q].s()) by {
        if i < d.len() { let q = lem_origin(c, p, d, a, i); assert(c[q] == d2[i]); } else { assert(c[p] == d2[i]); }
    }
    }
    assert forall|i: int, j: int| 0 <= i < j < d2.len() implies disj((#[trigger] d2[i]).s(), (#[trigger] d2[j]).s()) by {
        if j < d.len() { assert(disj(d[i].s(), d[j].s())); } else { let q = lem_origin(c, p, d, a, i); assert(disj(c[q].s(), c[p].s())); }
    }
    assert forall|i: int| 0 <= i < d2.len() implies (#[trigger] d2[i]).s().subset_of(v) by { if i < d.len() { assert(d[i].s().subset_of(v)); } else { assert(c[p].s().subset_of(v)); } }
    assert(kept(c, p + 1, d2, a)) by { reveal(kept); assert forall|q: int| 0 <= q < p + 1 && !cross(a, (#[trigger] c[q]).s()) implies d2.contains(c[q]) by {
        if q < p { { assert(d.contains(c[q])); let i = choose|i: int| 0 <= i < d.len() && d[i] == c[q]; assert(d2[i] == c[q]); } } else { assert(d2[d.len() as int] == c[p]); }
    } }
    if found {
        let q = choose|q: int| 0 <= q < p && cross(a, (#[trigger] c[q]).s()); assert(cross(a, c[q].s()));
        let (x, y) = choose|x: u32, y: u32| #[trigger] a.contains(x) && #[trigger] a.contains(y) && c[q].s().contains(x) && !c[q].s().contains(y);
        assert(disj(c[q].s(), c[p].s())); assert(!c[p].s().contains(x));
        assert forall|i: int| 0 <= i < d2.len() implies disj((#[trigger] d2[i]).s(), t) by {
            if i < d.len() { assert(disj(d[i].s(), t)); } else {
                assert(c[p].s().intersect(t) =~= c[p].s().intersect(a));
                assert forall|z: u32| c[p].s().contains(z) implies !#[trigger] t.contains(z) by { if t.contains(z) { assert(c[p].s().intersect(t).contains(z)); assert(a.contains(z) && a.contains(x)); assert(cross(a, c[p].s())); } }
            }
        }
    } else { assert(d2 =~= c.take(p + 1)); }
    if b2 { if br { let q = choose|q: int| 0 <= q < p && a.subset_of((#[trigger] c[q]).s()); assert(a.subset_of(c[q].s())); } else { assert(a.subset_of(c[p].s())); } }
}
pub open spec fn merged(d: Seq<CSet<u32>>, found: bool, br: bool, t: CSet<u32>, a: CSet<u32>) -> Seq<CSet<u32>> { if found { d.push(t) } else if !br { d.push(a) } else { d } }
pub proof fn lem_forest_joins(e: Seq<SE>, v: Set<u32>, k: int, c: Seq<CSet<u32>>, d: Seq<CSet<u32>>, found: bool, br: bool, t: Set<u32>)
    requires forest(e, v, k, c), merging(e, v, k, c, c.len() as int, d, found, br, t), 0 <= k < e.len(), vx_(e, k).len() == 2
    ensures joins(e, k) == (found || !br)
{
    reveal(forest); reveal(covers); reveal(solid); reveal(merging);
    let a = vx_(e, k); let n = c.len() as int;
    let x = a.choose(); assert(a.contains(x)); let y = a.remove(x).choose(); assert(a.remove(x).len() == 1); assert(a.remove(x).contains(y)); lem_pair(a, x, y);
    // joins
    if found {
        let q = choose|q: int| 0 <= q < n && cross(a, (#[trigger] c[q]).s());
        let s = c[q].s();
        assert(closed(e, k, s)) by { assert forall|j: int| 0 <= j < k implies !cross(#[trigger] vx_(e, j), s) by {
            assert(inside(vx_(e, j), c)); let i = choose|i: int| 0 <= i < c.len() && vx_(e, j).subset_of((#[trigger] c[i]).s());
            if i < q { assert(disj(c[i].s(), c[q].s())); } else if q < i { assert(disj(c[q].s(), c[i].s())); }
        } }
    } else if !br {
        let s = Set::<u32>::empty().insert(x);
        assert(closed(e, k, s)) by { assert forall|j: int| 0 <= j < k implies !cross(#[trigger] vx_(e, j), s) by {
            assert(inside(vx_(e, j), c)); let i = choose|i: int| 0 <= i < c.len() && vx_(e, j).subset_of((#[trigger] c[i]).s());
            if vx_(e, j).contains(x) { assert(c[i].s().contains(x)); assert(!a.subset_of(c[i].s())); assert(!c[i].s().contains(y)); assert(a.contains(y) && a.contains(x)); assert(cross(a, c[i].s())); }
        } }
        assert(a.contains(x) && a.contains(y)); assert(cross(a, s));
    } else {
        let q = choose|q: int| 0 <= q < n && a.subset_of((#[trigger] c[q]).s());
        assert forall|s: Set<u32>| #[trigger] closed(e, k, s) implies !cross(vx_(e, k), s) by { assert(!cross(c[q].s(), s)); }
    }
}
pub proof fn lem_fs_cover(e: Seq<SE>, v: Set<u32>, k: int, c: Seq<CSet<u32>>, d: Seq<CSet<u32>>, found: bool, br: bool, t: CSet<u32>)
    requires forest(e, v, k, c), merging(e, v, k, c, c.len() as int, d, found, br, t.s()), 0 <= k < e.len(), vx_(e, k).len() == 2, vx_(e, k).subset_of(v)
    ensures covers(e, k + 1, merged(d, found, br, t, e[k].0))
{
    reveal(forest); reveal(covers); reveal(merging);
    let a = vx_(e, k); let m = merged(d, found, br, t, e[k].0); let n = c.len() as int;
    assert(c.take(n) =~= c);
    assert forall|j: int| 0 <= j < k + 1 implies inside(#[trigger] vx_(e, j), m) by {
        if j < k {
            assert(inside(vx_(e, j), c)); let i = choose|i: int| 0 <= i < c.len() && vx_(e, j).subset_of((#[trigger] c[i]).s());
            if cross(a, c[i].s()) { assert(m[d.len() as int] == t); assert(vx_(e, j).subset_of(m[d.len() as int].s())); }
            else { assert(d.contains(c[i])) by { reveal(kept); } let w = choose|w: int| 0 <= w < d.len() && d[w] == c[i]; assert(m[w] == c[i]); }
        } else if found { assert(m[d.len() as int] == t); }
        else if !br { assert(m[d.len() as int] == e[k].0); }
        else { let q = choose|q: int| 0 <= q < n && a.subset_of((#[trigger] c[q]).s()); assert(d == c); assert(m[q] == c[q]); }
    }
}
pub proof fn lem_fs_solid(e: Seq<SE>, v: Set<u32>, k: int, c: Seq<CSet<u32>>, d: Seq<CSet<u32>>, found: bool, br: bool, t: CSet<u32>)
    requires forest(e, v, k, c), merging(e, v, k, c, c.len() as int, d, found, br, t.s()), 0 <= k < e.len(), vx_(e, k).len() == 2, vx_(e, k).subset_of(v)
    ensures solid(e, k + 1, merged(d, found, br, t, e[k].0))
{
    reveal(forest); reveal(solid); reveal(merging);
    let a = vx_(e, k); let m = merged(d, found, br, t, e[k].0); let n = c.len() as int;
    assert forall|s: Set<u32>, i: int| #[trigger] closed(e, k + 1, s) && 0 <= i < m.len() implies !cross((#[trigger] m[i]).s(), s) by {
        lem_closed_less(e, k, k + 1, s); assert(!cross(vx_(e, k), s));
        if i < d.len() { let q = lem_origin(c, n, d, a, i); assert(!cross(c[q].s(), s)); }
        else if found { assert(m[i] == t); } else { assert(m[i] == e[k].0); }
    }
}
pub proof fn lem_fs_part(e: Seq<SE>, v: Set<u32>, k: int, c: Seq<CSet<u32>>, d: Seq<CSet<u32>>, found: bool, br: bool, t: CSet<u32>)
    requires forest(e, v, k, c), merging(e, v, k, c, c.len() as int, d, found, br, t.s()), 0 <= k < e.len(), vx_(e, k).len() == 2, vx_(e, k).subset_of(v)
    ensures part(merged(d, found, br, t, e[k].0)), within(merged(d, found, br, t, e[k].0), v)
{
    reveal(forest); reveal(merging);
    let a = vx_(e, k); let m = merged(d, found, br, t, e[k].0); let n = c.len() as int;
    assert(c.take(n) =~= c);
    let x = a.choose(); assert(a.contains(x)); let y = a.remove(x).choose(); assert(a.remove(x).len() == 1); assert(a.remove(x).contains(y)); lem_pair(a, x, y);
    assert forall|i: int, j: int| 0 <= i < j < m.len() implies disj((#[trigger] m[i]).s(), (#[trigger] m[j]).s()) by {
        if j < d.len() { assert(disj(d[i].s(), d[j].s())); }
        else if found { assert(disj(d[i].s(), t.s())); }
        else {
            assert(d == c); let g = c[i].s();
            assert forall|z: u32| g.contains(z) implies !#[trigger] a.contains(z) by { if a.contains(z) { assert(!a.subset_of(c[i].s())); let o = if z == x { y } else { x }; assert(!c[i].s().contains(o)); assert(a.contains(z) && a.contains(o)); assert(cross(a, c[i].s())); } }
        }
    }
    assert forall|i: int| 0 <= i < m.len() implies (#[trigger] m[i]).s().subset_of(v) by { if i < d.len() { assert(d[i].s().subset_of(v)); } }
}
pub proof fn lem_forest_step(e: Seq<SE>, v: Set<u32>, k: int, c: Seq<CSet<u32>>, d: Seq<CSet<u32>>, found: bool, br: bool, t: CSet<u32>)
    requires forest(e, v, k, c), merging(e, v, k, c, c.len() as int, d, found, br, t.s()), 0 <= k < e.len(), vx_(e, k).len() == 2, vx_(e, k).subset_of(v)
    ensures joins(e, k) == (found || !br), forest(e, v, k + 1, merged(d, found, br, t, e[k].0)), merged(d, found, br, t, e[k].0).len() > 0
{
    lem_forest_joins(e, v, k, c, d, found, br, t.s());
    lem_fs_cover(e, v, k, c, d, found, br, t); lem_fs_solid(e, v, k, c, d, found, br, t); lem_fs_part(e, v, k, c, d, found, br, t);
    lem_csum_push(d, t); lem_csum_push(d, e[k].0);
    assert(c.take(c.len() as int) =~= c);
    assert(csum(merged(d, found, br, t, e[k].0)) == jw(e, k + 1).len() && merged(d, found, br, t, e[k].0).len() > 0) by { reveal(forest); reveal(merging); }
    reveal(forest);
}
// one component that holds every vertex: nothing joins any more
pub proof fn lem_forest_full(e: Seq<SE>, v: Set<u32>, k: int, m: int, c: Seq<CSet<u32>>)
    requires forest(e, v, k, c), jw(e, k).len() == v.len() - 1, c.len() > 0, 0 <= k <= m <= e.len(), forall|j: int| 0 <= j < m ==> (#[trigger] vx_(e, j)).subset_of(v)
    ensures jw(e, m) == jw(e, k), ji(e, m) == ji(e, k)
    decreases m - k
{
    reveal(forest); reveal(solid);
    if m > k {
        lem_forest_full(e, v, k, m - 1, c);
        lem_all_of(c, v); lem_subset_card(all_of(c), v);
        assert(c.len() == 1);
        assert(all_of(c) == v);
        assert forall|x: u32| v.contains(x) implies c[0].s().contains(x) by { assert(all_of(c).contains(x)); let i = choose|i: int| 0 <= i < c.len() && (#[trigger] c[i]).s().contains(x); }
        assert forall|s: Set<u32>| #[trigger] closed(e, m - 1, s) implies !cross(vx_(e, m - 1), s) by { lem_closed_less(e, k, m - 1, s); assert(!cross(c[0].s(), s)); assert(vx_(e, m - 1).subset_of(v)); }
        assert(!joins(e, m - 1));
    }
}
pub proof fn lem_forest_count(e: Seq<SE>, v: Set<u32>, k: int, c: Seq<CSet<u32>>) requires forest(e, v, k, c) ensures jw(e, k).len() <= v.len(), jw(e, k).len() == ji(e, k).len(), c.len() > 0 ==> jw(e, k).len() < v.len()
{ reveal(forest); lem_all_of(c, v); lem_subset_card(all_of(c), v); lem_jwji(e, k); }
pub proof fn lem_jwji(e: Seq<SE>, k: int) ensures jw(e, k).len() == ji(e, k).len() decreases k
{ if k > 0 { lem_jwji(e, k - 1); } }
pub proof fn lem_filtered_resize(l0: Seq<CVec<SE>>, l: Seq<CVec<SE>>)
    requires filtered(l0), l0.len() > 0, l0.len() >= 2 ==> l == l0, l0.len() < 2 ==> l.len() == 2 && l[0] == l0[0] && l[1]@.len() == 0
    ensures filtered(l), forall|k: int| lv(l, k) == #[trigger] lv(l0, k), l.len() >= 2
{
    assert forall|k: int| lv(l, k) == #[trigger] lv(l0, k) by { if l0.len() < 2 { if k == 1 { assert(lv(l, 1) =~= lv(l0, 1)); } } }
    if l0.len() < 2 {
        assert forall|k: int| 0 <= k < l.len() implies flevel_ok(#[trigger] lv(l, k), k) by { assert(lv(l, k) == lv(l0, k)); if k == 0 { assert(flevel_ok(lv(l0, 0), 0)); } }
        assert forall|k: int| 1 <= k < l.len() implies faces_ok(#[trigger] lv(l, k), lv(l, k - 1)) by { assert(lv(l, k) == lv(l0, k)); }
    }
}
