// ---------------------------------------------------------------- the listing of a Rips complex is a filtration
pub proof fn lem_nonempty_all(w: Graph, k: int) requires 0 <= k <= w.len(), forall|i: int| 0 <= i < w.len() ==> (#[trigger] w[i])@.len() > 0
    ensures nonempty(w, k) == w.take(k) decreases k
{ if k > 0 { lem_nonempty_all(w, k - 1); assert(w.take(k) =~= w.take(k - 1).push(w[k - 1])); } else { assert(nonempty(w, k) =~= w.take(k)); } }
pub proof fn lem_as_sets_at(l: Seq<Entry>, k: int) requires 0 <= k <= l.len()
    ensures as_sets(l, k).len() == k, forall|i: int| 0 <= i < k ==> #[trigger] as_sets(l, k)[i] == (cset_of(l[i].0@.to_set()), l[i].1) decreases k
{ if k > 0 { lem_as_sets_at(l, k - 1); } }
pub proof fn lem_perm_mem<T>(a: Seq<T>, b: Seq<T>, x: T) requires perm(a, b) ensures a.contains(x) == b.contains(x)
{ broadcast use vstd::seq_lib::group_to_multiset_ensures; assert(a.contains(x) <==> a.to_multiset().count(x) > 0); assert(b.contains(x) <==> b.to_multiset().count(x) > 0); }
pub proof fn lem_perm_nodup<T>(a: Seq<T>, b: Seq<T>) requires perm(a, b), a.no_duplicates() ensures b.no_duplicates()
{
    a.lemma_multiset_has_no_duplicates();
    assert forall|x: T| #[trigger] b.to_multiset().contains(x) implies b.to_multiset().count(x) == 1 by { assert(a.to_multiset().contains(x)); }
    b.lemma_multiset_has_no_duplicates_conv();
}
pub open spec fn src(l: Seq<Entry>, s: Seq<SE>, i: int, a: int) -> bool { 0 <= a < l.len() && s[i] == (cset_of(l[a].0@.to_set()), l[a].1) }
pub proof fn lem_src(l: Seq<Entry>, s: Seq<SE>, i: int) requires listing(l, s), 0 <= i < s.len() ensures exists|a: int| src(l, s, i, a)
{
    let t = as_sets(l, l.len() as int); lem_as_sets_at(l, l.len() as int); lem_perm_mem(t, s, s[i]); assert(s.contains(s[i]));
    let a = choose|a: int| 0 <= a < t.len() && t[a] == s[i]; assert(src(l, s, i, a));
}
pub proof fn lem_level_filtered(d: Seq<CVec<F64>>, eps: real, n: int, l: Seq<Entry>, s: Seq<SE>, k: int)
    requires level_ok(d, eps, n, l, k + 1), listing(l, s), k >= 0 ensures flevel_ok(s, k)
{
    assert forall|i: int| 0 <= i < s.len() implies (#[trigger] vx_(s, i)).len() == k + 1 by {
        lem_src(l, s, i); let a = choose|a: int| src(l, s, i, a); assert(entry_ok(d, eps, n, l[a], k + 1)); lem_sorted_set_len(l[a].0@); }
    let t = as_sets(l, l.len() as int); lem_as_sets_at(l, l.len() as int);
    assert forall|a: int, b: int| 0 <= a < l.len() && 0 <= b < l.len() && #[trigger] l[a].0@.to_set() == #[trigger] l[b].0@.to_set() implies a == b by { lem_key_set(d, eps, n, l, k, a, b); }
    assert(t.no_duplicates()) by { assert forall|a: int, b: int| 0 <= a < t.len() && 0 <= b < t.len() && a != b implies t[a] != t[b] by {
        if t[a] == t[b] { assert(t[a].0.s() == l[a].0@.to_set()); assert(t[b].0.s() == l[b].0@.to_set()); } } }
    lem_perm_nodup(t, s);
    assert forall|i: int, j: int| 0 <= i < j < s.len() implies #[trigger] vx_(s, i) != #[trigger] vx_(s, j) by {
        if vx_(s, i) == vx_(s, j) {
            lem_src(l, s, i); let a = choose|a: int| src(l, s, i, a); lem_src(l, s, j); let b = choose|b: int| src(l, s, j, b);
            assert(s[i].0.s() == l[a].0@.to_set()); assert(s[j].0.s() == l[b].0@.to_set()); assert(a == b); assert(s[i] == s[j]);
        }
    }
}
pub proof fn lem_key_set(d: Seq<CVec<F64>>, eps: real, n: int, l: Seq<Entry>, k: int, a: int, b: int)
    requires level_ok(d, eps, n, l, k + 1), 0 <= a < l.len(), 0 <= b < l.len(), l[a].0@.to_set() == l[b].0@.to_set() ensures a == b
{
    assert(entry_ok(d, eps, n, l[a], k + 1)); assert(entry_ok(d, eps, n, l[b], k + 1));
    let x = l[a].0@; let y = l[b].0@;
    assert forall|z: u32| #[trigger] x.contains(z) <==> y.contains(z) by { assert(x.to_set().contains(z) <==> y.to_set().contains(z)); }
    lem_sorted_unique(x, y); assert(cvec_of(x) == l[a].0 && cvec_of(y) == l[b].0);
    if a < b { assert(l[a].0 != l[b].0); } if b < a { assert(l[b].0 != l[a].0); }
}
pub proof fn lem_faces_filtered(d: Seq<CVec<F64>>, eps: real, n: int, l: Seq<Entry>, s: Seq<SE>, l0: Seq<Entry>, s0: Seq<SE>, k: int)
    requires level_ok(d, eps, n, l, k + 1), listing(l, s), level_ok(d, eps, n, l0, k), listing(l0, s0), k >= 1 ensures faces_ok(s, s0)
{
    assert forall|i: int, x: u32| 0 <= i < s.len() && vx_(s, i).contains(x) implies in_level(s0, #[trigger] vx_(s, i).remove(x)) by {
        lem_src(l, s, i); let a = choose|a: int| src(l, s, i, a); assert(entry_ok(d, eps, n, l[a], k + 1)); let v = l[a].0@;
        assert(v.to_set().contains(x)); let q = choose|q: int| 0 <= q < v.len() && v[q] == x;
        lem_remove_contains(v, q); let u = v.remove(q); lem_sub(d, eps, n, v, u);
        assert(has_key(l0, cvec_of(u))); let p = choose|p: int| at_key(l0, cvec_of(u), p); assert(l0[p].0@ == u);
        let t0 = as_sets(l0, l0.len() as int); lem_as_sets_at(l0, l0.len() as int); assert(t0.contains(t0[p])); lem_perm_mem(t0, s0, t0[p]);
        let j = choose|j: int| 0 <= j < s0.len() && s0[j] == t0[p];
        assert(vx_(s0, j) == u.to_set());
        assert(u.to_set() =~= vx_(s, i).remove(x)) by { assert forall|z: u32| u.to_set().contains(z) <==> vx_(s, i).remove(x).contains(z) by { assert(u.to_set().contains(z) <==> u.contains(z)); assert(v.to_set().contains(z) <==> v.contains(z)); } }
    }
}
pub proof fn lem_rips_filtered(d: Seq<CVec<F64>>, eps: real, n: int, w: Graph, m: int, r: Seq<CVec<SE>>)
    requires rips(d, eps, n, w, m), r.len() == nonempty(w, w.len() as int).len(), forall|k: int| 0 <= k < r.len() ==> listing(nonempty(w, w.len() as int)[k]@, (#[trigger] r[k])@)
    ensures filtered(r)
{
    lem_nonempty_all(w, w.len() as int); assert(w.take(w.len() as int) =~= w);
    assert forall|k: int| 0 <= k < r.len() implies flevel_ok(#[trigger] lv(r, k), k) by { assert(listing(w[k]@, r[k]@)); assert(level_ok(d, eps, n, lev(w, k), k + 1)); lem_level_filtered(d, eps, n, w[k]@, r[k]@, k); }
    assert forall|k: int| 1 <= k < r.len() implies faces_ok(#[trigger] lv(r, k), lv(r, k - 1)) by {
        assert(listing(w[k]@, r[k]@)); assert(listing(w[k - 1]@, r[k - 1]@)); assert(level_ok(d, eps, n, lev(w, k), k + 1)); assert(level_ok(d, eps, n, lev(w, k - 1), k));
        lem_faces_filtered(d, eps, n, w[k]@, r[k]@, w[k - 1]@, r[k - 1]@, k);
    }
}
/// what the persistence stage assumes of simplexBase::getAllEdges, from the contract of the array list's override
pub fn listing_is_filtration(this: &SimplexArrayList, epsilon: F64, m: Ghost<int>) -> (ret: CVec<CVec<SE>>)
    requires rips(this.distMatrix@, this.maxEpsilon@, lev(this.weightedGraph@, 0).len() as int, this.weightedGraph@, m@)
    ensures filtered(ret@)
{
    let ret = al_all_edges(this, epsilon);
    proof { lem_rips_filtered(this.distMatrix@, this.maxEpsilon@, lev(this.weightedGraph@, 0).len() as int, this.weightedGraph@, m@, ret@); }
    ret
}
