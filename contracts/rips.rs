// ---------------------------------------------------------------- Vietoris-Rips complex of a distance matrix
pub open spec fn mat_ok(d: Seq<CVec<F64>>, n: int) -> bool {
    n <= 0x7fff_ffff && n <= d.len() && (forall|i: int| 0 <= i < n ==> (#[trigger] d[i])@.len() >= n)
        && (forall|x: u32, y: u32| #![trigger dm(d, x, y)] x < y < n ==> dm(d, x, y) >= 0real)
}
// v is a simplex: increasing vertices below n, every pair at most eps apart
pub open spec fn cl(d: Seq<CVec<F64>>, eps: real, n: int, v: Seq<u32>) -> bool {
    sorted_lt(v) && (forall|x: u32| #[trigger] v.contains(x) ==> x < n)
        && (forall|x: u32, y: u32| #![trigger v.contains(x), v.contains(y)] v.contains(x) && v.contains(y) && x < y ==> dm(d, x, y) <= eps)
}
pub open spec fn wt_le(d: Seq<CVec<F64>>, v: Seq<u32>, w: real) -> bool { forall|x: u32, y: u32| #![trigger v.contains(x), v.contains(y)] v.contains(x) && v.contains(y) && x < y ==> dm(d, x, y) <= w }
pub open spec fn wt_at(d: Seq<CVec<F64>>, v: Seq<u32>, w: real) -> bool { exists|x: u32, y: u32| #![trigger v.contains(x), v.contains(y)] v.contains(x) && v.contains(y) && x < y && dm(d, x, y) == w }
// w is the largest pairwise distance of v, zero for a vertex
pub open spec fn is_wt(d: Seq<CVec<F64>>, v: Seq<u32>, w: real) -> bool { if v.len() <= 1 { w == 0real } else { wt_le(d, v, w) && wt_at(d, v, w) } }
pub open spec fn entry_ok(d: Seq<CVec<F64>>, eps: real, n: int, e: Entry, k: int) -> bool { e.0@.len() == k && cl(d, eps, n, e.0@) && is_wt(d, e.0@, e.1@) }
pub open spec fn entries_ok(d: Seq<CVec<F64>>, eps: real, n: int, l: Seq<Entry>, k: int) -> bool {
    (forall|x: int| 0 <= x < l.len() ==> entry_ok(d, eps, n, #[trigger] l[x], k)) && (forall|x: int, y: int| #![trigger l[x], l[y]] 0 <= x < y < l.len() ==> l[x].0 != l[y].0)
}
pub open spec fn complete(d: Seq<CVec<F64>>, eps: real, n: int, l: Seq<Entry>, k: int) -> bool { forall|v: CVec<u32>| v@.len() == k && cl(d, eps, n, v@) ==> #[trigger] has_key(l, v) }
// l is exactly the list of simplices with k vertices, each once, with its weight
pub open spec fn level_ok(d: Seq<CVec<F64>>, eps: real, n: int, l: Seq<Entry>, k: int) -> bool { entries_ok(d, eps, n, l, k) && complete(d, eps, n, l, k) }
pub open spec fn lev(w: Graph, k: int) -> Seq<Entry> { if 0 <= k < w.len() { w[k]@ } else { Seq::<Entry>::empty() } }
// w holds exactly the simplices with at most m vertices
pub open spec fn rips(d: Seq<CVec<F64>>, eps: real, n: int, w: Graph, m: int) -> bool {
    w.len() <= m && (forall|k: int| 0 <= k < w.len() ==> (#[trigger] w[k])@.len() > 0) && (forall|k: int| 0 <= k < m ==> level_ok(d, eps, n, #[trigger] lev(w, k), k + 1))
}
// ---------------------------------------------------------------- lemmas
pub proof fn lem_sub(d: Seq<CVec<F64>>, eps: real, n: int, s: Seq<u32>, v: Seq<u32>)
    requires cl(d, eps, n, s), sorted_lt(v), forall|x: u32| #[trigger] v.contains(x) ==> s.contains(x) ensures cl(d, eps, n, v) {}
pub proof fn lem_remove_contains(s: Seq<u32>, k: int) requires sorted_lt(s), 0 <= k < s.len()
    ensures sorted_lt(s.remove(k)), s.remove(k).len() == s.len() - 1, forall|x: u32| #[trigger] s.remove(k).contains(x) <==> s.contains(x) && x != s[k]
{
    let r = s.remove(k);
    assert forall|x: u32| #[trigger] r.contains(x) <==> s.contains(x) && x != s[k] by {
        if r.contains(x) { let i = choose|i: int| 0 <= i < r.len() && r[i] == x; if i < k { assert(s[i] == x); assert(cless(s[i], s[k])); } else { assert(s[i + 1] == x); assert(cless(s[k], s[i + 1])); } }
        if s.contains(x) && x != s[k] { let i = choose|i: int| 0 <= i < s.len() && s[i] == x; if i < k { assert(r[i] == x); } else { assert(r[i - 1] == x); } }
    }
    assert forall|i: int, j: int| #![trigger r[i], r[j]] 0 <= i < j < r.len() implies cless(r[i], r[j]) by {
        let a = if i < k { i } else { i + 1 }; let b = if j < k { j } else { j + 1 }; assert(cless(s[a], s[b]));
    }
}
pub proof fn lem_sorted_unique(a: Seq<u32>, b: Seq<u32>)
    requires sorted_lt(a), sorted_lt(b), forall|x: u32| #[trigger] a.contains(x) <==> b.contains(x) ensures a == b decreases a.len()
{
    if a.len() == 0 { if b.len() > 0 { assert(b.contains(b[0])); assert(a.contains(b[0])); } assert(a =~= b); }
    else if b.len() == 0 { assert(a.contains(a[0])); }
    else {
        let i = a.len() - 1; let j = b.len() - 1;
        assert(a.contains(a[i]) && b.contains(b[j])); assert(b.contains(a[i]) && a.contains(b[j]));
        let p = choose|p: int| 0 <= p < b.len() && b[p] == a[i]; let q = choose|q: int| 0 <= q < a.len() && a[q] == b[j];
        if p < j { assert(cless(b[p], b[j])); if q < i { assert(cless(a[q], a[i])); } }
        assert(a[i] == b[j]);
        lem_remove_contains(a, i); lem_remove_contains(b, j);
        lem_sorted_unique(a.remove(i), b.remove(j));
        assert(a =~= a.remove(i).push(a[i])); assert(b =~= b.remove(j).push(b[j]));
    }
}
pub proof fn lem_subseq_sorted(t: Seq<u32>, s: Seq<u32>) requires subseq_of(t, s), sorted_lt(s)
    ensures sorted_lt(t), forall|x: u32| #[trigger] t.contains(x) ==> s.contains(x) decreases s.len()
{
    assert forall|x: u32| #[trigger] t.contains(x) implies s.contains(x) by { lem_subseq_contains(t, s, x); }
    if s.len() > 0 {
        let s1 = s.drop_last();
        assert(sorted_lt(s1)) by { assert forall|i: int, j: int| #![trigger s1[i], s1[j]] 0 <= i < j < s1.len() implies cless(s1[i], s1[j]) by { assert(cless(s[i], s[j])); } }
        if subseq_of(t, s1) { lem_subseq_sorted(t, s1); }
        else {
            let t1 = t.drop_last();
            lem_subseq_sorted(t1, s1);
            assert forall|i: int, j: int| #![trigger t[i], t[j]] 0 <= i < j < t.len() implies cless(t[i], t[j]) by {
                if j < t1.len() { assert(cless(t1[i], t1[j])); }
                else { assert(t1.contains(t1[i])); assert(s1.contains(t[i])); let k = choose|k: int| 0 <= k < s1.len() && s1[k] == t[i]; assert(cless(s[k], s[s.len() - 1])); }
            }
        }
    }
}
pub proof fn lem_subseq_refl(s: Seq<u32>) ensures subseq_of(s, s) decreases s.len() { if s.len() > 0 { lem_subseq_refl(s.drop_last()); } }
pub proof fn lem_subseq_remove(s: Seq<u32>, k: int) requires 0 <= k < s.len() ensures subseq_of(s.remove(k), s) decreases s.len()
{
    let s1 = s.drop_last();
    if k == s.len() - 1 { assert(s.remove(k) =~= s1); lem_subseq_refl(s1); }
    else { lem_subseq_remove(s1, k); assert(s.remove(k).drop_last() =~= s1.remove(k)); }
}
// sizes of symmetric difference and intersection of two increasing sequences
pub proof fn lem_cards(a: Seq<u32>, b: Seq<u32>, x: Seq<u32>, m: Seq<u32>)
    requires sorted_lt(a), sorted_lt(b), sorted_lt(x), sorted_lt(m), x.to_set() =~= symdiff(a.to_set(), b.to_set()), forall|e: u32| #[trigger] m.contains(e) <==> a.contains(e) && b.contains(e)
    ensures a.len() + b.len() == x.len() + 2 * m.len(), forall|e: u32| #[trigger] x.contains(e) <==> a.contains(e) != b.contains(e)
{
    let sa = a.to_set(); let sb = b.to_set(); let sm = m.to_set();
    lem_sorted_set_len(a); lem_sorted_set_len(b); lem_sorted_set_len(x); lem_sorted_set_len(m);
    assert(sm =~= sa.intersect(sb)) by { assert forall|e: u32| sm.contains(e) <==> sa.intersect(sb).contains(e) by { assert(m.contains(e) <==> a.contains(e) && b.contains(e)); } }
    let da = sa.difference(sb); let db = sb.difference(sa);
    assert(sa =~= da.union(sm)); assert(sb =~= db.union(sm));
    assert(da.disjoint(sm) && db.disjoint(sm) && da.disjoint(db));
    lemma_set_disjoint_lens(da, sm); lemma_set_disjoint_lens(db, sm); lemma_set_disjoint_lens(da, db);
    assert forall|e: u32| #[trigger] x.contains(e) <==> a.contains(e) != b.contains(e) by { assert(x.contains(e) <==> x.to_set().contains(e)); assert(a.contains(e) <==> sa.contains(e)); assert(b.contains(e) <==> sb.contains(e)); }
}
pub proof fn lem_wt_unique(d: Seq<CVec<F64>>, v: Seq<u32>, a: real, b: real) requires is_wt(d, v, a), is_wt(d, v, b) ensures a == b
{
    if v.len() > 1 {
        let (x, y) = choose|x: u32, y: u32| #![trigger v.contains(x), v.contains(y)] v.contains(x) && v.contains(y) && x < y && dm(d, x, y) == a;
        let (p, q) = choose|x: u32, y: u32| #![trigger v.contains(x), v.contains(y)] v.contains(x) && v.contains(y) && x < y && dm(d, x, y) == b;
    }
}
pub proof fn lem_wt_nonneg(d: Seq<CVec<F64>>, eps: real, n: int, v: Seq<u32>, w: real) requires mat_ok(d, n), cl(d, eps, n, v), is_wt(d, v, w) ensures w >= 0real
{
    if v.len() > 1 { let (x, y) = choose|x: u32, y: u32| #![trigger v.contains(x), v.contains(y)] v.contains(x) && v.contains(y) && x < y && dm(d, x, y) == w; assert(dm(d, x, y) >= 0real); }
}
// no simplices of some size: none of any larger size
pub proof fn lem_none_above(d: Seq<CVec<F64>>, eps: real, n: int, k: int, k2: int)
    requires 1 <= k <= k2, level_ok(d, eps, n, Seq::<Entry>::empty(), k) ensures level_ok(d, eps, n, Seq::<Entry>::empty(), k2)
{
    let e = Seq::<Entry>::empty();
    assert forall|v: CVec<u32>| v@.len() == k2 && cl(d, eps, n, v@) implies #[trigger] has_key(e, v) by {
        let t = v@.take(k);
        assert forall|x: u32| #[trigger] t.contains(x) implies v@.contains(x) by { let i = choose|i: int| 0 <= i < t.len() && t[i] == x; assert(v@[i] == x); }
        assert(sorted_lt(t)) by { assert forall|i: int, j: int| #![trigger t[i], t[j]] 0 <= i < j < t.len() implies cless(t[i], t[j]) by { assert(cless(v@[i], v@[j])); } }
        lem_sub(d, eps, n, v@, t);
        assert(has_key(e, cvec_of(t)));
        let q = choose|q: int| at_key(e, cvec_of(t), q);
    }
}
pub proof fn lem_rips_extend(d: Seq<CVec<F64>>, eps: real, n: int, w: Graph, m: int, k: int, m2: int)
    requires rips(d, eps, n, w, m), 0 <= k < m, w.len() <= k, m <= m2 ensures rips(d, eps, n, w, m2)
{
    assert(lev(w, k) =~= Seq::<Entry>::empty());
    assert(level_ok(d, eps, n, lev(w, k), k + 1));
    assert forall|q: int| 0 <= q < m2 implies level_ok(d, eps, n, #[trigger] lev(w, q), q + 1) by {
        if q >= m { assert(lev(w, q) =~= Seq::<Entry>::empty()); lem_none_above(d, eps, n, k + 1, q + 1); }
    }
}
// ---------------------------------------------------------------- insertion of one point
pub open spec fn has2(v: Seq<u32>) -> bool { v.len() == 2 }
// the edges of the first n points together with the edges of point n to points below j
pub open spec fn edges_upto(d: Seq<CVec<F64>>, eps: real, n: int, l: Seq<Entry>, j: int) -> bool {
    entries_ok(d, eps, n + 1, l, 2)
    && (forall|v: CVec<u32>| v@.len() == 2 && cl(d, eps, n + 1, v@) && (v@[1] < n || v@[0] < j) ==> #[trigger] has_key(l, v))
    && (forall|x: int| 0 <= x < l.len() ==> (#[trigger] l[x]).0@[1] < n || l[x].0@[0] < j)
}
pub proof fn lem_pair_contains(v: Seq<u32>) requires v.len() == 2 ensures v.contains(v[0]), v.contains(v[1]), forall|x: u32| #[trigger] v.contains(x) <==> x == v[0] || x == v[1]
{ assert(v.contains(v[0]) && v.contains(v[1])); assert forall|x: u32| #[trigger] v.contains(x) <==> x == v[0] || x == v[1] by { if x == v[0] { assert(v[0] == x); } if x == v[1] { assert(v[1] == x); } } }
pub proof fn lem_edges_init(d: Seq<CVec<F64>>, eps: real, n: int, l: Seq<Entry>)
    requires level_ok(d, eps, n, l, 2) ensures edges_upto(d, eps, n, l, 0)
{
    assert forall|x: int| 0 <= x < l.len() implies entry_ok(d, eps, n + 1, #[trigger] l[x], 2) by { assert(entry_ok(d, eps, n, l[x], 2)); }
    assert forall|x: int| 0 <= x < l.len() implies (#[trigger] l[x]).0@[1] < n by { assert(entry_ok(d, eps, n, l[x], 2)); lem_pair_contains(l[x].0@); }
    assert forall|v: CVec<u32>| v@.len() == 2 && cl(d, eps, n + 1, v@) && (v@[1] < n || v@[0] < 0) implies #[trigger] has_key(l, v) by {
        lem_pair_contains(v@); assert(cless(v@[0], v@[1])); assert(cl(d, eps, n, v@));
    }
}
pub proof fn lem_edges_step(d: Seq<CVec<F64>>, eps: real, n: int, l: Seq<Entry>, j: int, e: Entry)
    requires mat_ok(d, n + 1), edges_upto(d, eps, n, l, j), 0 <= j < n <= 0x7fff_fffe, e.0@ == seq![j as u32, n as u32], e.1@ == dm(d, j as u32, n as u32)
    ensures e.1@ <= eps ==> edges_upto(d, eps, n, l.push(e), j + 1) && !l.contains(e), e.1@ > eps ==> edges_upto(d, eps, n, l, j + 1)
{
    let a = j as u32; let b = n as u32; let v = e.0@;
    lem_pair_contains(v);
    assert(v.contains(a) && v.contains(b) && v[0] == a && v[1] == b);
    assert(sorted_lt(v)) by { assert(cless(a, b)); }
    if e.1@ <= eps {
        let l2 = l.push(e);
        assert(cl(d, eps, n + 1, v));
        assert(wt_at(d, v, e.1@));
        assert(entry_ok(d, eps, n + 1, e, 2));
        assert forall|x: int, y: int| #![trigger l2[x], l2[y]] 0 <= x < y < l2.len() implies l2[x].0 != l2[y].0 by { if y == l.len() { assert(l2[x] == l[x]); } else { assert(l[x].0 != l[y].0); } }
        assert forall|u: CVec<u32>| u@.len() == 2 && cl(d, eps, n + 1, u@) && (u@[1] < n || u@[0] < j + 1) implies #[trigger] has_key(l2, u) by {
            lem_pair_contains(u@); assert(cless(u@[0], u@[1]));
            if u@[1] < n || u@[0] < j { assert(has_key(l, u)); let k = choose|k: int| at_key(l, u, k); assert(at_key(l2, u, k)); }
            else { assert(u@[0] == a && u@[1] == b); assert(u@ =~= v); assert(cvec_of(u@) == u && cvec_of(v) == e.0); assert(at_key(l2, u, l.len() as int)); }
        }
        assert forall|x: int| 0 <= x < l2.len() implies (#[trigger] l2[x]).0@[1] < n || l2[x].0@[0] < j + 1 by { if x < l.len() { assert(l2[x] == l[x]); } }
        assert forall|x: int| 0 <= x < l2.len() implies entry_ok(d, eps, n + 1, #[trigger] l2[x], 2) by { if x < l.len() { assert(l2[x] == l[x]); } }
    } else {
        assert forall|u: CVec<u32>| u@.len() == 2 && cl(d, eps, n + 1, u@) && (u@[1] < n || u@[0] < j + 1) implies #[trigger] has_key(l, u) by {
            lem_pair_contains(u@); assert(cless(u@[0], u@[1]));
            if !(u@[1] < n || u@[0] < j) { assert(u@[0] == a && u@[1] == b); assert(cless(u@[0], u@[1])); assert(u@.contains(a) && u@.contains(b)); }
        }
    }
}
pub proof fn lem_edges_done(d: Seq<CVec<F64>>, eps: real, n: int, l: Seq<Entry>)
    requires edges_upto(d, eps, n, l, n) ensures level_ok(d, eps, n + 1, l, 2)
{
    assert forall|v: CVec<u32>| v@.len() == 2 && cl(d, eps, n + 1, v@) implies #[trigger] has_key(l, v) by { lem_pair_contains(v@); assert(cless(v@[0], v@[1])); }
}
pub proof fn lem_vertex_step(d: Seq<CVec<F64>>, eps: real, n: int, l: Seq<Entry>, e: Entry)
    requires 0 <= n <= 0x7fff_fffe, level_ok(d, eps, n, l, 1), e.0@ == seq![n as u32], e.1@ == 0real ensures level_ok(d, eps, n + 1, l.push(e), 1)
{
    let l2 = l.push(e);
    assert(forall|x: u32| #[trigger] e.0@.contains(x) ==> x == n);
    assert(entry_ok(d, eps, n + 1, e, 1));
    assert forall|x: int| 0 <= x < l2.len() implies entry_ok(d, eps, n + 1, #[trigger] l2[x], 1) by { if x < l.len() { assert(l2[x] == l[x]); assert(entry_ok(d, eps, n, l[x], 1)); } }
    assert forall|x: int, y: int| #![trigger l2[x], l2[y]] 0 <= x < y < l2.len() implies l2[x].0 != l2[y].0 by {
        if y == l.len() { assert(entry_ok(d, eps, n, l[x], 1)); assert(l[x].0@.contains(l[x].0@[0])); assert(l2[y].0@[0] == n); } else { assert(l[x].0 != l[y].0); } }
    assert forall|v: CVec<u32>| v@.len() == 1 && cl(d, eps, n + 1, v@) implies #[trigger] has_key(l2, v) by {
        assert(v@.contains(v@[0]));
        if v@[0] < n { assert(forall|x: u32| #[trigger] v@.contains(x) ==> x == v@[0]); assert(cl(d, eps, n, v@)); assert(has_key(l, v)); let k = choose|k: int| at_key(l, v, k); assert(at_key(l2, v, k)); }
        else { assert(v@ =~= e.0@); assert(cvec_of(v@) == v && cvec_of(e.0@) == e.0); assert(at_key(l2, v, l.len() as int)); }
    }
}
pub proof fn lem_level_empty(d: Seq<CVec<F64>>, eps: real, n: int, k: int)
    requires 0 <= n < k ensures level_ok(d, eps, n, Seq::<Entry>::empty(), k)
{
    let e = Seq::<Entry>::empty();
    assert forall|v: CVec<u32>| v@.len() == k && cl(d, eps, n, v@) implies #[trigger] has_key(e, v) by { lem_sorted_bound(v@, n); }
}
pub proof fn lem_sorted_bound(v: Seq<u32>, n: int) requires sorted_lt(v), forall|x: u32| #[trigger] v.contains(x) ==> x < n, 0 <= n ensures v.len() <= n decreases v.len()
{
    if v.len() > 0 {
        let i = v.len() - 1; assert(v.contains(v[i]));
        lem_remove_contains(v, i); let r = v.remove(i);
        assert forall|x: u32| #[trigger] r.contains(x) implies x < v[i] by { let q = choose|q: int| 0 <= q < r.len() && r[q] == x; assert(v[q] == x); assert(cless(v[q], v[i])); }
        lem_sorted_bound(r, v[i] as int);
    }
}
// ---------------------------------------------------------------- expansion by one dimension
// t is the union of the vertices of a and b
pub open spec fn sunion(a: Seq<u32>, b: Seq<u32>, t: Seq<u32>) -> bool { sorted_lt(t) && forall|x: u32| #[trigger] t.contains(x) <==> a.contains(x) || b.contains(x) }
pub open spec fn att2(d: Seq<CVec<F64>>, a: Seq<u32>, b: Seq<u32>, w: real) -> bool { wt_at(d, a, w) || wt_at(d, b, w) || exists|e: Seq<u32>| #[trigger] wt_at(d, e, w) && (forall|x: u32| #[trigger] e.contains(x) ==> a.contains(x) || b.contains(x)) }
// positions p < q of l hold the faces of s without its first and second vertex
pub open spec fn canon(l: Seq<Entry>, s: CVec<u32>, p: int, q: int) -> bool {
    0 <= p < q < l.len() && s@.len() >= 2 && ((l[p].0@ == s@.remove(0) && l[q].0@ == s@.remove(1)) || (l[p].0@ == s@.remove(1) && l[q].0@ == s@.remove(0)))
}
// every simplex with k+1 vertices whose canonical pair comes before (j,t) is in mm
pub open spec fn upto(d: Seq<CVec<F64>>, eps: real, n: int, l: Seq<Entry>, mm: Seq<Entry>, k: int, j: int, t: int) -> bool {
    forall|s: CVec<u32>, p: int, q: int| #![trigger canon(l, s, p, q)] canon(l, s, p, q) && s@.len() == k + 1 && cl(d, eps, n, s@) && (p < j || (p == j && q < t)) ==> has_key(mm, s)
}
pub open spec fn nocanon(d: Seq<CVec<F64>>, eps: real, n: int, l: Seq<Entry>, k: int, j: int, t: int) -> bool {
    forall|s: CVec<u32>| #![trigger canon(l, s, j, t)] !(canon(l, s, j, t) && s@.len() == k + 1 && cl(d, eps, n, s@))
}
pub proof fn lem_upto_row(d: Seq<CVec<F64>>, eps: real, n: int, l: Seq<Entry>, mm: Seq<Entry>, k: int, j: int)
    requires upto(d, eps, n, l, mm, k, j, l.len() as int) ensures upto(d, eps, n, l, mm, k, j + 1, 0), upto(d, eps, n, l, mm, k, j + 1, j + 2) {}
pub proof fn lem_upto_complete(d: Seq<CVec<F64>>, eps: real, n: int, l: Seq<Entry>, mm: Seq<Entry>, k: int, j: int, t: int)
    requires complete(d, eps, n, mm, k + 1) ensures upto(d, eps, n, l, mm, k, j, t) {}
pub proof fn lem_upto_none(d: Seq<CVec<F64>>, eps: real, n: int, l: Seq<Entry>, mm: Seq<Entry>, k: int)
    ensures upto(d, eps, n, l, mm, k, 0, 0) {}
// all pairs done: the next level is complete
pub proof fn lem_upto_done(d: Seq<CVec<F64>>, eps: real, n: int, l: Seq<Entry>, mm: Seq<Entry>, k: int)
    requires level_ok(d, eps, n, l, k), k >= 1, upto(d, eps, n, l, mm, k, l.len() as int, 0) ensures complete(d, eps, n, mm, k + 1)
{
    assert forall|s: CVec<u32>| s@.len() == k + 1 && cl(d, eps, n, s@) implies #[trigger] has_key(mm, s) by {
        let a = s@.remove(0); let b = s@.remove(1);
        lem_remove_contains(s@, 0); lem_remove_contains(s@, 1);
        lem_sub(d, eps, n, s@, a); lem_sub(d, eps, n, s@, b);
        assert(has_key(l, cvec_of(a)) && has_key(l, cvec_of(b)));
        let p = choose|p: int| at_key(l, cvec_of(a), p); let q = choose|q: int| at_key(l, cvec_of(b), q);
        assert(cless(s@[0], s@[1])); assert(s@[0] != s@[1]);
        if p == q { assert(a == b); assert(a[0] == s@[1] && b[0] == s@[0]); }
        if p < q { assert(canon(l, s, p, q)); } else { assert(canon(l, s, q, p)); }
    }
}
pub proof fn lem_has_key_push(l: Seq<Entry>, e: Entry) ensures has_key(l.push(e), e.0), forall|v: CVec<u32>| has_key(l, v) ==> #[trigger] has_key(l.push(e), v)
{
    assert(at_key(l.push(e), e.0, l.len() as int));
    assert forall|v: CVec<u32>| has_key(l, v) implies #[trigger] has_key(l.push(e), v) by { let k = choose|k: int| at_key(l, v, k); assert(at_key(l.push(e), v, k)); }
}
// processing pair (j,t) when it yields no simplex
pub proof fn lem_upto_skip(d: Seq<CVec<F64>>, eps: real, n: int, l: Seq<Entry>, mm: Seq<Entry>, k: int, j: int, t: int)
    requires upto(d, eps, n, l, mm, k, j, t), nocanon(d, eps, n, l, k, j, t) ensures upto(d, eps, n, l, mm, k, j, t + 1)
{
    assert forall|s: CVec<u32>, p: int, q: int| #![trigger canon(l, s, p, q)] canon(l, s, p, q) && s@.len() == k + 1 && cl(d, eps, n, s@) && (p < j || (p == j && q < t + 1)) implies has_key(mm, s) by {
        if p == j && q == t { assert(canon(l, s, j, t)); }
    }
}
// processing pair (j,t) when it yields e
pub proof fn lem_upto_step(d: Seq<CVec<F64>>, eps: real, n: int, l: Seq<Entry>, mm: Seq<Entry>, mm2: Seq<Entry>, k: int, j: int, t: int, e: Entry)
    requires upto(d, eps, n, l, mm, k, j, t), 0 <= j < t < l.len(), sunion(l[j].0@, l[t].0@, e.0@), has_key(mm2, e.0), forall|v: CVec<u32>| has_key(mm, v) ==> #[trigger] has_key(mm2, v)
    ensures upto(d, eps, n, l, mm2, k, j, t + 1)
{
    assert forall|s: CVec<u32>, p: int, q: int| #![trigger canon(l, s, p, q)] canon(l, s, p, q) && s@.len() == k + 1 && cl(d, eps, n, s@) && (p < j || (p == j && q < t + 1)) implies has_key(mm2, s) by {
        if p == j && q == t { lem_canon_union(l, s, p, q, e.0@); assert(cvec_of(s@) == s); assert(cvec_of(e.0@) == e.0); } else { assert(has_key(mm, s)); }
    }
}
pub proof fn lem_canon_union(l: Seq<Entry>, s: CVec<u32>, p: int, q: int, t: Seq<u32>)
    requires canon(l, s, p, q), sorted_lt(s@), sunion(l[p].0@, l[q].0@, t) ensures t == s@
{
    lem_remove_contains(s@, 0); lem_remove_contains(s@, 1); assert(cless(s@[0], s@[1]));
    assert forall|x: u32| #[trigger] t.contains(x) <==> s@.contains(x) by { assert(s@.remove(0).contains(x) <==> s@.contains(x) && x != s@[0]); assert(s@.remove(1).contains(x) <==> s@.contains(x) && x != s@[1]); }
    lem_sorted_unique(t, s@);
}
// e can be added: its key is new because weights are determined by keys
pub proof fn lem_entry_add(d: Seq<CVec<F64>>, eps: real, n: int, l: Seq<Entry>, k: int, e: Entry)
    requires entries_ok(d, eps, n, l, k), entry_ok(d, eps, n, e, k)
    ensures !l.contains(e) ==> entries_ok(d, eps, n, l.push(e), k) && !has_key(l, e.0), l.contains(e) ==> has_key(l, e.0), has_key(l, e.0) ==> l.contains(e)
{
    if l.contains(e) { let x = choose|x: int| 0 <= x < l.len() && l[x] == e; assert(at_key(l, e.0, x)); }
    if has_key(l, e.0) { let x = choose|x: int| at_key(l, e.0, x); assert(entry_ok(d, eps, n, l[x], k)); lem_wt_unique(d, e.0@, l[x].1@, e.1@); assert(l[x] == e); }
    if !l.contains(e) {
        let l2 = l.push(e);
        assert forall|x: int| 0 <= x < l2.len() implies entry_ok(d, eps, n, #[trigger] l2[x], k) by { if x < l.len() { assert(l2[x] == l[x]); } }
        assert forall|x: int, y: int| #![trigger l2[x], l2[y]] 0 <= x < y < l2.len() implies l2[x].0 != l2[y].0 by {
            if y == l.len() { if l2[x].0 == e.0 { assert(at_key(l, e.0, x)); } } else { assert(l[x].0 != l[y].0); } }
    }
}
// the union of two k-vertex simplices sharing k-1 vertices whose two other vertices lie in a common simplex f
pub proof fn lem_new_simplex(d: Seq<CVec<F64>>, eps: real, n: int, a: Entry, b: Entry, k: int, x: Seq<u32>, m: Seq<u32>, f: Entry, t: Entry)
    requires k >= 2, entry_ok(d, eps, n, a, k), entry_ok(d, eps, n, b, k), entry_ok(d, eps, n, f, k), x.len() == 2, sorted_lt(x), sorted_lt(m), x.to_set() =~= symdiff(a.0@.to_set(), b.0@.to_set()),
        forall|e: u32| #[trigger] m.contains(e) <==> a.0@.contains(e) && b.0@.contains(e), f.0@.contains(x[0]), f.0@.contains(x[1]),
        sunion(a.0@, b.0@, t.0@), t.1@ >= a.1@, t.1@ >= b.1@, t.1@ >= f.1@, att2(d, a.0@, b.0@, t.1@),
    ensures entry_ok(d, eps, n, t, k + 1)
{
    let u = t.0@; let av = a.0@; let bv = b.0@;
    lem_cards(av, bv, x, m);
    lem_pair_contains(x);
    // cardinality
    let su = u.to_set(); let sx = x.to_set(); let sm = m.to_set();
    lem_sorted_set_len(u); lem_sorted_set_len(x); lem_sorted_set_len(m);
    assert(su =~= sx.union(sm)) by { assert forall|e: u32| su.contains(e) <==> sx.union(sm).contains(e) by { assert(u.contains(e) <==> av.contains(e) || bv.contains(e)); assert(x.contains(e) <==> av.contains(e) != bv.contains(e)); assert(m.contains(e) <==> av.contains(e) && bv.contains(e)); } }
    assert(sx.disjoint(sm)) by { assert forall|e: u32| !(sx.contains(e) && sm.contains(e)) by { assert(x.contains(e) <==> av.contains(e) != bv.contains(e)); assert(m.contains(e) <==> av.contains(e) && bv.contains(e)); } }
    lemma_set_disjoint_lens(sx, sm);
    assert(u.len() == k + 1);
    // pairs
    assert forall|p: u32, q: u32| #![trigger u.contains(p), u.contains(q)] u.contains(p) && u.contains(q) && p < q implies dm(d, p, q) <= eps && dm(d, p, q) <= t.1@ by {
        assert(u.contains(p) <==> av.contains(p) || bv.contains(p)); assert(u.contains(q) <==> av.contains(q) || bv.contains(q));
        if av.contains(p) && av.contains(q) { assert(dm(d, p, q) <= a.1@); }
        else if bv.contains(p) && bv.contains(q) { assert(dm(d, p, q) <= b.1@); }
        else {
            assert(x.contains(p) && x.contains(q)); assert(f.0@.contains(p) && f.0@.contains(q)); assert(dm(d, p, q) <= f.1@);
        }
    }
    assert forall|p: u32| #[trigger] u.contains(p) implies p < n by { assert(av.contains(p) || bv.contains(p)); }
    if wt_at(d, av, t.1@) { let (p, q) = choose|p: u32, q: u32| #![trigger av.contains(p), av.contains(q)] av.contains(p) && av.contains(q) && p < q && dm(d, p, q) == t.1@; assert(u.contains(p) && u.contains(q)); }
    else if wt_at(d, bv, t.1@) { let (p, q) = choose|p: u32, q: u32| #![trigger bv.contains(p), bv.contains(q)] bv.contains(p) && bv.contains(q) && p < q && dm(d, p, q) == t.1@; assert(u.contains(p) && u.contains(q)); }
    else {
        let e = choose|e: Seq<u32>| #[trigger] wt_at(d, e, t.1@) && (forall|y: u32| #[trigger] e.contains(y) ==> av.contains(y) || bv.contains(y));
        let (p, q) = choose|p: u32, q: u32| #![trigger e.contains(p), e.contains(q)] e.contains(p) && e.contains(q) && p < q && dm(d, p, q) == t.1@; assert(u.contains(p) && u.contains(q));
    }
}
// the canonical pair: symmetric difference is the first two vertices, intersection the rest
pub proof fn lem_canon(l: Seq<Entry>, s: CVec<u32>, p: int, q: int, x: Seq<u32>, m: Seq<u32>)
    requires canon(l, s, p, q), sorted_lt(s@), sorted_lt(x), sorted_lt(m), x.to_set() =~= symdiff(l[p].0@.to_set(), l[q].0@.to_set()),
        forall|e: u32| #[trigger] m.contains(e) <==> l[p].0@.contains(e) && l[q].0@.contains(e),
    ensures x == seq![s@[0], s@[1]], m == s@.subrange(2, s@.len() as int)
{
    let sv = s@; let a = l[p].0@; let b = l[q].0@;
    lem_remove_contains(sv, 0); lem_remove_contains(sv, 1); assert(cless(sv[0], sv[1]));
    let pr = seq![sv[0], sv[1]]; let rest = sv.subrange(2, sv.len() as int);
    lem_pair_contains(pr);
    assert(sorted_lt(pr)) by { assert(pr[0] == sv[0] && pr[1] == sv[1]); }
    assert(sorted_lt(rest)) by { assert forall|i: int, j: int| #![trigger rest[i], rest[j]] 0 <= i < j < rest.len() implies cless(rest[i], rest[j]) by { assert(cless(sv[i + 2], sv[j + 2])); } }
    assert forall|e: u32| #[trigger] rest.contains(e) <==> sv.contains(e) && e != sv[0] && e != sv[1] by {
        if rest.contains(e) { let i = choose|i: int| 0 <= i < rest.len() && rest[i] == e; assert(sv[i + 2] == e); assert(cless(sv[0], sv[i + 2])); assert(cless(sv[1], sv[i + 2])); }
        if sv.contains(e) && e != sv[0] && e != sv[1] { let i = choose|i: int| 0 <= i < sv.len() && sv[i] == e; assert(rest[i - 2] == e); }
    }
    assert(sv.contains(sv[0]) && sv.contains(sv[1]));
    assert forall|e: u32| #[trigger] x.contains(e) <==> pr.contains(e) by {
        assert(x.contains(e) <==> x.to_set().contains(e)); assert(a.contains(e) <==> a.to_set().contains(e)); assert(b.contains(e) <==> b.to_set().contains(e));
        assert(sv.remove(0).contains(e) <==> sv.contains(e) && e != sv[0]); assert(sv.remove(1).contains(e) <==> sv.contains(e) && e != sv[1]);
    }
    assert forall|e: u32| #[trigger] m.contains(e) <==> rest.contains(e) by {
        assert(sv.remove(0).contains(e) <==> sv.contains(e) && e != sv[0]); assert(sv.remove(1).contains(e) <==> sv.contains(e) && e != sv[1]); assert(rest.contains(e) <==> sv.contains(e) && e != sv[0] && e != sv[1]);
    }
    lem_sorted_unique(x, pr); lem_sorted_unique(m, rest);
}
// every face the code looks up for a canonical pair is a simplex
pub proof fn lem_search(d: Seq<CVec<F64>>, eps: real, n: int, s: Seq<u32>, x: Seq<u32>, m: Seq<u32>, z: Seq<u32>)
    requires cl(d, eps, n, s), s.len() >= 2, x == seq![s[0], s[1]], m == s.subrange(2, s.len() as int), subseq_of(z, m)
    ensures cl(d, eps, n, x + z)
{
    let v = x + z;
    assert(sorted_lt(m)) by { assert forall|i: int, j: int| #![trigger m[i], m[j]] 0 <= i < j < m.len() implies cless(m[i], m[j]) by { assert(cless(s[i + 2], s[j + 2])); } }
    lem_subseq_sorted(z, m); lem_pair_contains(x);
    assert forall|e: u32| #[trigger] z.contains(e) implies s.contains(e) && cless(s[1], e) && cless(s[0], e) by { assert(m.contains(e)); let i = choose|i: int| 0 <= i < m.len() && m[i] == e; assert(s[i + 2] == e); assert(cless(s[0], s[i + 2])); assert(cless(s[1], s[i + 2])); }
    assert(cless(s[0], s[1]));
    assert(sorted_lt(v)) by {
        assert forall|i: int, j: int| #![trigger v[i], v[j]] 0 <= i < j < v.len() implies cless(v[i], v[j]) by {
            if j >= 2 { assert(z.contains(z[j - 2])); if i >= 2 { assert(cless(z[i - 2], z[j - 2])); } }
        }
    }
    assert forall|e: u32| #[trigger] v.contains(e) implies s.contains(e) by { let i = choose|i: int| 0 <= i < v.len() && v[i] == e; if i >= 2 { assert(z.contains(z[i - 2])); } }
    lem_sub(d, eps, n, s, v);
}
pub open spec fn imax(a: int, b: int) -> int { if a >= b { a } else { b } }
// number of levels of w that are known to be complete
pub open spec fn known(w: Graph) -> int { imax(2, w.len() as int) }
pub open spec fn expanding(d: Seq<CVec<F64>>, eps: real, n: int, w: Graph, wd: Graph, k: int) -> bool {
    w.len() >= k && wd.len() >= k && (forall|q: int| 0 <= q < k ==> #[trigger] w[q] == wd[q]) && entries_ok(d, eps, n, lev(w, k), k + 1) && (wd.len() <= k ==> w.len() <= k + 1 && (w.len() == k + 1 ==> w[k]@.len() > 0)) && (wd.len() > k ==> w == wd)
}
pub open spec fn within_set(a: Seq<u32>, b: Seq<u32>) -> bool { forall|x: u32| #[trigger] a.contains(x) ==> b.contains(x) }
pub open spec fn search_ok(d: Seq<CVec<F64>>, a: Entry, b: Entry, l: Seq<Entry>, x: Seq<u32>, m: Seq<u32>, total: Seq<u32>, w: real) -> bool {
    sorted_lt(total) && within_set(x, total) && (forall|e: u32| #[trigger] total.contains(e) ==> a.0@.contains(e) || b.0@.contains(e)) && w >= a.1@ && w >= b.1@ && att2(d, a.0@, b.0@, w)
}
pub open spec fn bridged(l: Seq<Entry>, x: Seq<u32>, fi: int, w: real) -> bool { 0 <= fi < l.len() && l[fi].0@.contains(x[0]) && l[fi].0@.contains(x[1]) && w >= l[fi].1@ }
pub proof fn lem_upto_start(d: Seq<CVec<F64>>, eps: real, n: int, l: Seq<Entry>, mm: Seq<Entry>, k: int, j: int)
    requires upto(d, eps, n, l, mm, k, j, 0) ensures upto(d, eps, n, l, mm, k, j, j + 1) {}
pub proof fn lem_not_canon(d: Seq<CVec<F64>>, eps: real, n: int, l: Seq<Entry>, k: int, p: int, q: int, x: Seq<u32>)
    requires 0 <= p < q < l.len(), entry_ok(d, eps, n, l[p], k), entry_ok(d, eps, n, l[q], k), sorted_lt(x), x.len() != 2, x.to_set() =~= symdiff(l[p].0@.to_set(), l[q].0@.to_set())
    ensures nocanon(d, eps, n, l, k, p, q)
{
    assert forall|s: CVec<u32>| #![trigger canon(l, s, p, q)] !(canon(l, s, p, q) && s@.len() == k + 1 && cl(d, eps, n, s@)) by {
        if canon(l, s, p, q) && s@.len() == k + 1 && cl(d, eps, n, s@) {
            let m = s@.subrange(2, s@.len() as int);
            lem_canon_inter(l, s, p, q, m);
            lem_canon(l, s, p, q, x, m);
        }
    }
}
pub proof fn lem_canon_inter(l: Seq<Entry>, s: CVec<u32>, p: int, q: int, m: Seq<u32>)
    requires canon(l, s, p, q), sorted_lt(s@), m == s@.subrange(2, s@.len() as int)
    ensures sorted_lt(m), forall|e: u32| #[trigger] m.contains(e) <==> l[p].0@.contains(e) && l[q].0@.contains(e)
{
    let sv = s@;
    lem_remove_contains(sv, 0); lem_remove_contains(sv, 1); assert(cless(sv[0], sv[1]));
    assert(sorted_lt(m)) by { assert forall|i: int, j: int| #![trigger m[i], m[j]] 0 <= i < j < m.len() implies cless(m[i], m[j]) by { assert(cless(sv[i + 2], sv[j + 2])); } }
    assert forall|e: u32| #[trigger] m.contains(e) <==> l[p].0@.contains(e) && l[q].0@.contains(e) by {
        assert(sv.remove(0).contains(e) <==> sv.contains(e) && e != sv[0]); assert(sv.remove(1).contains(e) <==> sv.contains(e) && e != sv[1]);
        if m.contains(e) { let i = choose|i: int| 0 <= i < m.len() && m[i] == e; assert(sv[i + 2] == e); assert(cless(sv[0], sv[i + 2])); assert(cless(sv[1], sv[i + 2])); }
        if sv.contains(e) && e != sv[0] && e != sv[1] { let i = choose|i: int| 0 <= i < sv.len() && sv[i] == e; assert(m[i - 2] == e); }
    }
}
// an increasing sequence is its own sorted form
pub proof fn lem_sorted_perm(a: Seq<u32>, b: Seq<u32>) requires sorted_le(a), dupfree(a), sorted_lt(b), forall|x: u32| #[trigger] a.contains(x) <==> b.contains(x) ensures a == b
{ lem_sorted_dupfree_u32(a); lem_sorted_unique(a, b); }
pub proof fn lem_concat_dupfree(a: Seq<u32>, b: Seq<u32>) requires dupfree(a), dupfree(b), forall|x: u32| !(#[trigger] a.contains(x) && b.contains(x))
    ensures dupfree(a + b), forall|x: u32| #[trigger] (a + b).contains(x) <==> a.contains(x) || b.contains(x)
{
    let c = a + b; let n = a.len() as int;
    assert forall|i: int, j: int| #![trigger c[i], c[j]] 0 <= i < j < c.len() implies c[i] != c[j] by {
        if j < n { assert(a[i] != a[j]); } else if i >= n { assert(b[i - n] != b[j - n]); } else { assert(a.contains(a[i])); assert(b.contains(b[j - n])); }
    }
    assert forall|x: u32| #[trigger] c.contains(x) <==> a.contains(x) || b.contains(x) by {
        if a.contains(x) { let i = choose|i: int| 0 <= i < a.len() && a[i] == x; assert(c[i] == x); }
        if b.contains(x) { let i = choose|i: int| 0 <= i < b.len() && b[i] == x; assert(c[n + i] == x); }
        if c.contains(x) { let i = choose|i: int| 0 <= i < c.len() && c[i] == x; if i < n { assert(a[i] == x); } else { assert(b[i - n] == x); } }
    }
}
// the larger of the weights seen so far is attained inside a or b or a searched face
pub proof fn lem_att_search(d: Seq<CVec<F64>>, a: Seq<u32>, b: Seq<u32>, f: Entry, w: real)
    requires wt_at(d, f.0@, f.1@), (forall|x: u32| #[trigger] f.0@.contains(x) ==> a.contains(x) || b.contains(x)), w == f.1@ || wt_at(d, a, w) || wt_at(d, b, w) ensures att2(d, a, b, w) {}
// a face that was looked up and not found excludes a canonical simplex
pub proof fn lem_all_stored(d: Seq<CVec<F64>>, eps: real, n: int, l: Seq<Entry>, w: Graph, k: int, p: int, q: int, x: Seq<u32>, m: Seq<u32>, z: Seq<u32>, v: CVec<u32>)
    requires 0 <= p < q < l.len(), k >= 2, k <= w.len(), l == w[k - 1]@, level_ok(d, eps, n, l, k), sorted_lt(x), sorted_lt(m), x.len() == 2, m.len() == k - 1, x.to_set() =~= symdiff(l[p].0@.to_set(), l[q].0@.to_set()),
        forall|e: u32| #[trigger] m.contains(e) <==> l[p].0@.contains(e) && l[q].0@.contains(e), subseq_of(z, m) && z.len() == m.len() - 1, v@ == x + z, !stored(w, v)
    ensures nocanon(d, eps, n, l, k, p, q)
{
    assert forall|s: CVec<u32>| #![trigger canon(l, s, p, q)] !(canon(l, s, p, q) && s@.len() == k + 1 && cl(d, eps, n, s@)) by {
        if canon(l, s, p, q) && s@.len() == k + 1 && cl(d, eps, n, s@) {
            lem_canon(l, s, p, q, x, m);
            lem_search(d, eps, n, s@, x, m, z);
            assert(has_key(l, v));
        }
    }
}
pub proof fn lem_search_step(d: Seq<CVec<F64>>, a: Entry, b: Entry, l: Seq<Entry>, x: Seq<u32>, m: Seq<u32>, z: Seq<u32>, tv: Seq<u32>, tv2: Seq<u32>, k: int, w: real)
    requires 0 <= k < l.len(), l[k].0@ == x + z, x.len() == 2, sorted_lt(tv2), tv2.to_set() =~= tv.to_set().union((x + z).to_set()),
        (forall|e: u32| #[trigger] tv.contains(e) ==> a.0@.contains(e) || b.0@.contains(e)), (forall|e: u32| #[trigger] x.contains(e) ==> a.0@.contains(e) || b.0@.contains(e)), within_set(x, tv),
        (forall|e: u32| #[trigger] m.contains(e) ==> a.0@.contains(e) && b.0@.contains(e)), within_set(z, m), wt_at(d, l[k].0@, l[k].1@), w >= a.1@, w >= b.1@, w >= l[k].1@, w == l[k].1@ || att2(d, a.0@, b.0@, w)
    ensures search_ok(d, a, b, l, x, m, tv2, w), within_set(z, tv2), within_set(tv, tv2), bridged(l, x, k, w)
{
    let f = x + z;
    assert forall|e: u32| #[trigger] f.contains(e) <==> x.contains(e) || z.contains(e) by {
        if f.contains(e) { let i = choose|i: int| 0 <= i < f.len() && f[i] == e; if i < 2 { assert(x[i] == e); } else { assert(z[i - 2] == e); } }
        if x.contains(e) { let i = choose|i: int| 0 <= i < x.len() && x[i] == e; assert(f[i] == e); }
        if z.contains(e) { let i = choose|i: int| 0 <= i < z.len() && z[i] == e; assert(f[i + 2] == e); }
    }
    assert forall|e: u32| #[trigger] tv2.contains(e) <==> tv.contains(e) || x.contains(e) || z.contains(e) by {
        assert(tv2.contains(e) <==> tv2.to_set().contains(e)); assert(tv.contains(e) <==> tv.to_set().contains(e)); assert(f.contains(e) <==> f.to_set().contains(e));
    }
    assert(x.contains(x[0]) && x.contains(x[1]));
    if w == l[k].1@ && !att2(d, a.0@, b.0@, w) { assert(wt_at(d, f, w)); assert(f =~= l[k].0@); }
}
pub proof fn lem_search_done(d: Seq<CVec<F64>>, a: Entry, b: Entry, l: Seq<Entry>, x: Seq<u32>, m: Seq<u32>, r: Seq<CVec<u32>>, total: Seq<u32>, w: real)
    requires search_ok(d, a, b, l, x, m, total, w), m.len() >= 2, sorted_lt(m), forall|t: CVec<u32>| #[trigger] r.contains(t) <==> subseq_of(t@, m) && t@.len() == m.len() - 1,
        forall|k: int| 0 <= k < r.len() ==> within_set((#[trigger] r[k])@, total),
        forall|e: u32| #[trigger] x.contains(e) <==> a.0@.contains(e) != b.0@.contains(e), forall|e: u32| #[trigger] m.contains(e) <==> a.0@.contains(e) && b.0@.contains(e),
    ensures sunion(a.0@, b.0@, total), r.len() > 0
{
    assert forall|e: u32| m.contains(e) implies #[trigger] total.contains(e) by {
        let i = choose|i: int| 0 <= i < m.len() && m[i] == e;
        let c = if i == 0 { 1 } else { 0 };
        lem_subseq_remove(m, c); lem_remove_contains(m, c); assert(m[c] != m[i]) by { assert(cless(m[0], m[if i == 0 { 1 } else { i }])); }
        let t = cvec_of(m.remove(c)); assert(r.contains(t));
        let k = choose|k: int| 0 <= k < r.len() && r[k] == t; assert(within_set(r[k]@, total)); assert(r[k]@.contains(e));
    }
    lem_subseq_remove(m, 0); let t = cvec_of(m.remove(0)); assert(r.contains(t));
    assert forall|e: u32| #[trigger] total.contains(e) <==> a.0@.contains(e) || b.0@.contains(e) by { if a.0@.contains(e) || b.0@.contains(e) { if a.0@.contains(e) && b.0@.contains(e) { assert(m.contains(e)); } else { assert(x.contains(e)); } } }
}
pub proof fn lem_subseq_empty(s: Seq<u32>) ensures subseq_of(Seq::<u32>::empty(), s) decreases s.len() { if s.len() > 0 { lem_subseq_empty(s.drop_last()); } }
pub open spec fn nonempty_upto(p: Seq<CVec<F64>>, k: int) -> int decreases k { if k <= 0 { 0 } else { nonempty_upto(p, k - 1) + if p[k - 1]@.len() > 0 { 1int } else { 0int } } }
pub proof fn lem_nonempty_upto(p: Seq<CVec<F64>>, k: int) requires 0 <= k ensures 0 <= nonempty_upto(p, k) <= k decreases k { if k > 0 { lem_nonempty_upto(p, k - 1); } }
