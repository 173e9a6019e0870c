// ------------------------------------------------------------ nodes on the heap: an arena, a pointer is an index
#[derive(Clone, Copy)]
pub struct Ptr { pub v: Option<usize> }
impl Ptr { pub fn null() -> (r: Ptr) ensures r.v is None { Ptr { v: None } } }
pub fn ptr_eq(a: Ptr, b: Ptr) -> (r: bool) ensures r == (a == b) { match (a.v, b.v) { (None, None) => true, (Some(x), Some(y)) => x == y, _ => false } }
#[verifier::external_body] pub fn arb_ptr() -> (r: Ptr) { unimplemented!() }
pub struct THeap { pub nodes: CVec<TreeNode>, pub lab: Ghost<Seq<Seq<u32>>>, pub at: Ghost<Map<Seq<u32>, int>>, pub freed: Ghost<Set<int>> }
impl THeap {
    pub open spec fn ok(&self, p: Ptr) -> bool { p.v is Some && p.v->0 < self.nodes@.len() && !self.freed@.contains(p.v->0 as int) }
    pub open spec fn nd(&self, p: Ptr) -> TreeNode { self.nodes@[p.v->0 as int] }
    #[verifier::external_body] pub fn new() -> (r: Self) ensures r.nodes@.len() == 0, r.lab@.len() == 0, r.at@ == Map::<Seq<u32>, int>::empty(), r.freed@ == Set::<int>::empty() { unimplemented!() }
    #[verifier::external_body] pub fn at(&self, p: Ptr) -> (r: &TreeNode) requires self.ok(p) ensures *r == self.nd(p) { unimplemented!() }
    #[verifier::external_body] pub fn at_mut(&mut self, p: Ptr) -> (r: &mut TreeNode) requires old(self).ok(p)
        ensures *r == old(self).nd(p), final(self).nodes@ == old(self).nodes@.update(p.v->0 as int, *final(r)),
            final(self).lab == old(self).lab, final(self).at == old(self).at, final(self).freed == old(self).freed { unimplemented!() }
    #[verifier::external_body] pub fn alloc(&mut self, t: TreeNode) -> (r: Ptr)
        ensures r.v == Some(old(self).nodes@.len() as usize), final(self).nodes@ == old(self).nodes@.push(t), final(self).nodes@.len() < MAXLEN, !old(self).freed@.contains(old(self).nodes@.len() as int),
            final(self).lab@ == old(self).lab@.push(Seq::<u32>::empty()), final(self).at == old(self).at, final(self).freed == old(self).freed { unimplemented!() }
    #[verifier::external_body] pub fn free(&mut self, p: Ptr) requires old(self).ok(p)
        ensures final(self).nodes == old(self).nodes, final(self).lab == old(self).lab, final(self).at == old(self).at, final(self).freed@ == old(self).freed@.insert(p.v->0 as int) { unimplemented!() }
}
// ------------------------------------------------------------ simplices of the Vietoris-Rips complex, as increasing lists of vertex numbers
// vertices are numbered o, o+1, ...; vertex v is row v - o of the distance matrix
pub struct Geo { pub d: Seq<CVec<F64>>, pub o: int, pub eps: real, pub md: int }
pub open spec fn rmx(a: real, b: real) -> real { if a > b { a } else { b } }
pub open spec fn tdist(g: Geo, a: u32, b: u32) -> real { g.d[a - g.o]@[b - g.o]@ }
pub open spec fn maxd(g: Geo, x: Seq<u32>, b: u32) -> real decreases x.len() { if x.len() == 0 { 0real } else { rmx(maxd(g, x.drop_last(), b), tdist(g, x.last(), b)) } }
/// largest pairwise distance, zero for a single vertex
pub open spec fn wt(g: Geo, x: Seq<u32>) -> real decreases x.len() { if x.len() == 0 { 0real } else { rmx(wt(g, x.drop_last()), maxd(g, x.drop_last(), x.last())) } }
pub open spec fn inc(x: Seq<u32>, o: int, m: int) -> bool { sorted_lt(x) && forall|i: int| 0 <= i < x.len() ==> o <= #[trigger] x[i] < m }
/// x is a simplex on the vertices below m: at most md+1 vertices, all pairwise distances below eps
pub open spec fn simplex(g: Geo, m: int, x: Seq<u32>) -> bool { 1 <= x.len() <= g.md + 1 && inc(x, g.o, m) && (x.len() == 1 || wt(g, x) < g.eps) }
pub open spec fn square(d: Seq<CVec<F64>>) -> bool { forall|i: int| #![trigger d[i]] 0 <= i < d.len() ==> d[i]@.len() == d.len() && forall|j: int| 0 <= j < d.len() ==> (#[trigger] d[i]@[j])@ >= 0real }
pub open spec fn pre(s: Seq<u32>, y: Seq<u32>) -> bool { s.len() <= y.len() && y.subrange(0, s.len() as int) == s }
/// the property's wording: all pairwise distances below the threshold / the largest of them
pub open spec fn pairs_below(g: Geo, x: Seq<u32>, e: real) -> bool { forall|i: int, j: int| #![trigger x[i], x[j]] 0 <= i < j < x.len() ==> tdist(g, x[i], x[j]) < e }
pub proof fn lem_maxd_le(g: Geo, x: Seq<u32>, b: u32, e: real) requires e > 0real
    ensures maxd(g, x, b) < e <==> forall|i: int| 0 <= i < x.len() ==> tdist(g, #[trigger] x[i], b) < e decreases x.len()
{ if x.len() > 0 { let y = x.drop_last(); lem_maxd_le(g, y, b, e);
    if maxd(g, x, b) < e { assert forall|i: int| 0 <= i < x.len() implies tdist(g, #[trigger] x[i], b) < e by { if i < y.len() { assert(y[i] == x[i]); } } }
    if forall|i: int| 0 <= i < x.len() ==> tdist(g, #[trigger] x[i], b) < e { assert forall|i: int| 0 <= i < y.len() implies tdist(g, #[trigger] y[i], b) < e by { assert(y[i] == x[i]); } assert(x[x.len() - 1] == x.last()); } } }
pub proof fn lem_wt_pairs(g: Geo, x: Seq<u32>, e: real) requires e > 0real ensures wt(g, x) < e <==> pairs_below(g, x, e) decreases x.len()
{ if x.len() > 0 { let y = x.drop_last(); lem_wt_pairs(g, y, e); lem_maxd_le(g, y, x.last(), e);
    if wt(g, x) < e { assert forall|i: int, j: int| #![trigger x[i], x[j]] 0 <= i < j < x.len() implies tdist(g, x[i], x[j]) < e by { assert(y[i] == x[i]); if j < y.len() { assert(y[j] == x[j]); } } }
    if pairs_below(g, x, e) { assert forall|i: int, j: int| #![trigger y[i], y[j]] 0 <= i < j < y.len() implies tdist(g, y[i], y[j]) < e by { assert(y[i] == x[i] && y[j] == x[j]); }
        assert forall|i: int| 0 <= i < y.len() implies tdist(g, #[trigger] y[i], x.last()) < e by { assert(y[i] == x[i]); assert(x[x.len() - 1] == x.last()); } } } }
pub proof fn lem_maxd_nonneg(g: Geo, x: Seq<u32>, b: u32) ensures maxd(g, x, b) >= 0real decreases x.len() { if x.len() > 0 { lem_maxd_nonneg(g, x.drop_last(), b); } }
pub proof fn lem_wt_nonneg(g: Geo, x: Seq<u32>) ensures wt(g, x) >= 0real decreases x.len() { if x.len() > 0 { lem_wt_nonneg(g, x.drop_last()); } }
pub proof fn lem_wt_push(g: Geo, x: Seq<u32>, v: u32) ensures wt(g, x.push(v)) == rmx(wt(g, x), maxd(g, x, v)) { assert(x.push(v).drop_last() =~= x); }
pub proof fn lem_wt_step(g: Geo, s: Seq<u32>, m: u32) requires s.len() > 0
    ensures wt(g, s.push(m)) == rmx(rmx(tdist(g, s.last(), m), wt(g, s.drop_last().push(m))), wt(g, s)), wt(g, s.drop_last().push(m)) <= wt(g, s.push(m))
{ lem_wt_push(g, s, m); lem_wt_push(g, s.drop_last(), m); }
pub proof fn lem_pre_wt(g: Geo, s: Seq<u32>, y: Seq<u32>, m: u32) requires pre(s, y)
    ensures wt(g, s) <= wt(g, y), maxd(g, s, m) <= maxd(g, y, m), wt(g, s.push(m)) <= wt(g, y.push(m)) decreases y.len()
{
    if y.len() == s.len() { assert(y =~= s); }
    else { let z = y.drop_last(); assert(z.subrange(0, s.len() as int) =~= s); lem_pre_wt(g, s, z, m); }
    lem_wt_push(g, s, m); lem_wt_push(g, y, m);
}
pub proof fn lem_inc_push(s: Seq<u32>, o: int, m: u32) requires inc(s, o, m as int), o <= m ensures inc(s.push(m), o, m + 1), forall|x: u32| s.push(m).to_set().contains(x) <==> (s.to_set().contains(x) || x == m)
{
    let p = s.push(m);
    assert forall|i:int,j:int| #![trigger p[i], p[j]] 0<=i<j<p.len() implies cless(p[i],p[j]) by { if j < s.len() { assert(cless(s[i], s[j])); } else { assert(s[i] < m); } }
    assert forall|i: int| 0 <= i < p.len() implies o <= #[trigger] p[i] < m + 1 by { if i < s.len() { assert(s[i] < m); } }
    assert forall|x: u32| p.to_set().contains(x) <==> (s.to_set().contains(x) || x == m) by {
        if p.contains(x) { let k = choose|k: int| 0 <= k < p.len() && p[k] == x; if k < s.len() { assert(s[k] == x); } }
        if s.contains(x) { let k = choose|k: int| 0 <= k < s.len() && s[k] == x; assert(p[k] == x); }
        assert(p[s.len() as int] == m);
    }
}
pub proof fn lem_inc_sub(x: Seq<u32>, o: int, m: int, k: int) requires inc(x, o, m), 0 <= k <= x.len()
    ensures inc(x.subrange(0, k), o, m), k < x.len() ==> inc(x.subrange(0, k), o, x[k] as int)
{
    let y = x.subrange(0, k);
    assert forall|i:int,j:int| #![trigger y[i], y[j]] 0<=i<j<y.len() implies cless(y[i],y[j]) by { assert(cless(x[i], x[j])); }
    assert forall|i: int| 0 <= i < y.len() implies o <= #[trigger] y[i] < m && (k < x.len() ==> y[i] < x[k]) by { assert(y[i] == x[i]); if k < x.len() { assert(cless(x[i], x[k])); } }
}
pub proof fn lem_simplex_pre(g: Geo, m: int, s: Seq<u32>, y: Seq<u32>) requires simplex(g, m, y), pre(s, y), s.len() >= 1 ensures simplex(g, m, s)
{ lem_inc_sub(y, g.o, m, s.len() as int); if s.len() > 1 { lem_pre_wt(g, s, y, 0); } }
pub proof fn lem_remove_has(s: Seq<u32>, k: int) requires sorted_lt(s), 0 <= k < s.len()
    ensures sorted_lt(s.remove(k)), s.remove(k).len() == s.len() - 1, forall|x: u32| #[trigger] s.remove(k).contains(x) <==> s.contains(x) && x != s[k]
{
    let r = s.remove(k);
    assert forall|x: u32| #[trigger] r.contains(x) <==> s.contains(x) && x != s[k] by {
        if r.contains(x) { let i = choose|i: int| 0 <= i < r.len() && r[i] == x; if i < k { assert(s[i] == x); assert(cless(s[i], s[k])); } else { assert(s[i + 1] == x); assert(cless(s[k], s[i + 1])); } }
        if s.contains(x) && x != s[k] { let i = choose|i: int| 0 <= i < s.len() && s[i] == x; if i < k { assert(r[i] == x); } else { assert(r[i - 1] == x); } }
    }
    assert forall|i: int, j: int| #![trigger r[i], r[j]] 0 <= i < j < r.len() implies cless(r[i], r[j]) by {
        let a = if i < k { i } else { i + 1 }; let b = if j < k { j } else { j + 1 }; assert(cless(s[a], s[b]));
    }
}
pub proof fn lem_sorted_same(a: Seq<u32>, b: Seq<u32>)
    requires sorted_lt(a), sorted_lt(b), forall|x: u32| #[trigger] a.contains(x) <==> b.contains(x) ensures a == b decreases a.len()
{
    if a.len() == 0 { if b.len() > 0 { assert(b.contains(b[0])); assert(a.contains(b[0])); } assert(a =~= b); }
    else if b.len() == 0 { assert(a.contains(a[0])); }
    else {
        let i = a.len() - 1; let j = b.len() - 1;
        assert(a.contains(a[i]) && b.contains(b[j])); assert(b.contains(a[i]) && a.contains(b[j]));
        let p = choose|p: int| 0 <= p < b.len() && b[p] == a[i]; let q = choose|q: int| 0 <= q < a.len() && a[q] == b[j];
        if p < j { assert(cless(b[p], b[j])); if q < i { assert(cless(a[q], a[i])); } }
        assert(a[i] == b[j]);
        lem_remove_has(a, i); lem_remove_has(b, j);
        lem_sorted_same(a.remove(i), b.remove(j));
        assert(a =~= a.remove(i).push(a[i])); assert(b =~= b.remove(j).push(b[j]));
    }
}
// ------------------------------------------------------------ the heap: node at[x] stands for simplex x
/// newest child of x
pub open spec fn kid_ok(h: THeap, x: Seq<u32>, c: Ptr) -> bool {
    match c.v {
        None => forall|w: u32| !h.at@.dom().contains(#[trigger] x.push(w)),
        Some(q) => q < h.nodes@.len() && { let v = h.nodes@[q as int].index; h.at@.dom().contains(x.push(v)) && h.at@[x.push(v)] == q && forall|w: u32| h.at@.dom().contains(#[trigger] x.push(w)) ==> w <= v },
    }
}
/// next older child of the same parent; for a vertex, the next newer vertex
pub open spec fn sib_ok(h: THeap, x: Seq<u32>, c: Ptr) -> bool {
    let b = x.drop_last();
    match c.v {
        None => if x.len() == 1 { forall|w: u32| h.at@.dom().contains(#[trigger] b.push(w)) ==> w <= x.last() } else { forall|w: u32| h.at@.dom().contains(#[trigger] b.push(w)) ==> w >= x.last() },
        Some(q) => q < h.nodes@.len() && { let v = h.nodes@[q as int].index; h.at@.dom().contains(b.push(v)) && h.at@[b.push(v)] == q
            && if x.len() == 1 { v > x.last() && forall|w: u32| h.at@.dom().contains(#[trigger] b.push(w)) && w > x.last() ==> w >= v } else { v < x.last() && forall|w: u32| h.at@.dom().contains(#[trigger] b.push(w)) && w < x.last() ==> w <= v } },
    }
}
pub open spec fn jnode(h: THeap, g: Geo, x: Seq<u32>) -> bool {
    let p = h.at@[x]; let n = h.nodes@[p];
    x.len() > 0 && 0 <= p < h.nodes@.len() && h.lab@[p] == x && !h.freed@.contains(p) && n.index == x.last() && n.weight@ == wt(g, x) && n.child.v is None && kid_ok(h, x, n.parent) && sib_ok(h, x, n.sibling)
}
#[verifier::opaque]
pub open spec fn jj(h: THeap, g: Geo) -> bool { h.lab@.len() == h.nodes@.len() && h.nodes@.len() <= MAXLEN && forall|x: Seq<u32>| #[trigger] h.at@.dom().contains(x) ==> jnode(h, g, x) }
/// p is a node of the tree
pub open spec fn live(h: THeap, p: Ptr) -> bool { p.v is Some && p.v->0 < h.lab@.len() && h.at@.dom().contains(h.lab@[p.v->0 as int]) && h.at@[h.lab@[p.v->0 as int]] == p.v->0 }
pub open spec fn labp(h: THeap, p: Ptr) -> Seq<u32> { h.lab@[p.v->0 as int] }
pub proof fn lem_j(h: THeap, g: Geo, x: Seq<u32>) requires jj(h, g), h.at@.dom().contains(x) ensures jnode(h, g, x), h.lab@.len() == h.nodes@.len() { reveal(jj); }
pub proof fn lem_live(h: THeap, g: Geo, p: Ptr) requires jj(h, g), live(h, p) ensures jnode(h, g, labp(h, p)), h.ok(p), h.nd(p) == h.nodes@[h.at@[labp(h, p)]], h.lab@.len() == h.nodes@.len() { reveal(jj); }
// linking a new newest child under x
pub proof fn lem_j_add(h: THeap, h1: THeap, g: Geo, s: Seq<u32>, m: u32)
    requires jj(h, g), h.at@.dom().contains(s), !h.at@.dom().contains(s.push(m)), forall|x: Seq<u32>| #[trigger] h.at@.dom().contains(x) ==> inc(x, g.o, m + 1),
        h1.nodes@.len() == h.nodes@.len() + 1 <= MAXLEN,
        forall|i: int| 0 <= i < h.nodes@.len() && i != h.at@[s] ==> #[trigger] h1.nodes@[i] == h.nodes@[i],
        h1.nodes@[h.at@[s]] == (TreeNode { parent: Ptr { v: Some(h.nodes@.len() as usize) }, ..h.nodes@[h.at@[s]] }),
        h1.nodes@[h.nodes@.len() as int].index == m, h1.nodes@[h.nodes@.len() as int].weight@ == wt(g, s.push(m)), h1.nodes@[h.nodes@.len() as int].child.v is None, h1.nodes@[h.nodes@.len() as int].parent.v is None,
        h1.nodes@[h.nodes@.len() as int].sibling == h.nodes@[h.at@[s]].parent,
        h1.lab@ == h.lab@.push(s.push(m)), h1.at@ == h.at@.insert(s.push(m), h.nodes@.len() as int), h1.freed == h.freed, !h.freed@.contains(h.nodes@.len() as int),
    ensures jj(h1, g),
{
    reveal(jj);
    let p = h.nodes@.len() as int; let t = s.push(m); let d = h.at@.dom(); let d1 = h1.at@.dom(); let pn = h.at@[s];
    assert(jnode(h, g, s));
    assert(t.drop_last() =~= s);
    assert forall|w: u32| !d1.contains(#[trigger] t.push(w)) by {
        if d1.contains(t.push(w)) { assert(t.push(w).len() != t.len()); assert(d.contains(t.push(w))); assert(cless(t.push(w)[s.len() as int], t.push(w)[s.len() as int + 1])); }
    }
    assert forall|w: u32| d.contains(#[trigger] s.push(w)) implies w < m by { assert(inc(s.push(w), g.o, m + 1)); assert(s.push(w)[s.len() as int] == w); if w == m {} }
    assert forall|x: Seq<u32>| #[trigger] d1.contains(x) implies jnode(h1, g, x) by {
        if x == t {
            let c = h.nodes@[pn].parent;
            assert forall|w: u32| d1.contains(#[trigger] s.push(w)) implies w <= m by { if w != m { assert(s.push(w) != t) by { assert(s.push(w).last() == w); assert(t.last() == m); } assert(d.contains(s.push(w))); } }
            match c.v {
                None => { assert forall|w: u32| d1.contains(#[trigger] s.push(w)) implies w >= m by { if w != m { assert(s.push(w).last() == w && t.last() == m); assert(d.contains(s.push(w))); } } }
                Some(q) => {
                    let v = h.nodes@[q as int].index; assert(d.contains(s.push(v))); assert(s.push(v).last() == v && t.last() == m); assert(v < m);
                    assert(h1.nodes@[q as int].index == v);
                    assert(h1.at@[s.push(v)] == q);
                    assert forall|w: u32| d1.contains(#[trigger] s.push(w)) && w < m implies w <= v by { assert(s.push(w).last() == w); assert(d.contains(s.push(w))); }
                }
            }
            assert(kid_ok(h1, t, h1.nodes@[p].parent));
            assert(sib_ok(h1, t, h1.nodes@[p].sibling));
        } else {
            assert(d.contains(x)); assert(jnode(h, g, x));
            let q = h.at@[x]; let n = h.nodes@[q]; let n1 = h1.nodes@[q];
            assert(h1.at@[x] == q);
            if x == s {
                assert(d1.contains(t));
                assert forall|w: u32| d1.contains(#[trigger] s.push(w)) implies w <= m by { if w != m { assert(s.push(w).last() == w && t.last() == m); assert(d.contains(s.push(w))); } }
                assert(kid_ok(h1, x, n1.parent));
            } else {
                assert(q != pn) by { assert(h.lab@[q] == x && h.lab@[pn] == s); }
                assert(n1 == n);
                assert forall|w: u32| d1.contains(#[trigger] x.push(w)) implies d.contains(x.push(w)) by { assert(x.push(w).drop_last() =~= x); }
                match n.parent.v {
                    None => { assert(forall|w: u32| !d1.contains(#[trigger] x.push(w))); }
                    Some(c) => { let v = h.nodes@[c as int].index; assert(h1.nodes@[c as int].index == v); assert(x.push(v) != t) by { assert(x.push(v).drop_last() =~= x); } }
                }
                assert(kid_ok(h1, x, n1.parent));
            }
            let b = x.drop_last();
            assert(x =~= b.push(x.last()));
            assert(inc(x, g.o, m + 1)); assert(x[x.len() - 1] == x.last());
            assert forall|w: u32| d1.contains(#[trigger] b.push(w)) && w < x.last() implies d.contains(b.push(w)) by { assert(b.push(w).last() == w && t.last() == m); }
            assert forall|w: u32| x.len() == 1 && d1.contains(#[trigger] b.push(w)) implies d.contains(b.push(w)) by { assert(b.push(w).len() == 1); assert(t.len() >= 2); }
            assert(n1.sibling == n.sibling);
            match n.sibling.v {
                None => { if x.len() != 1 { assert forall|w: u32| d1.contains(#[trigger] b.push(w)) implies w >= x.last() by { if w < x.last() { assert(d.contains(b.push(w))); } } } }
                Some(c) => { let v = h.nodes@[c as int].index; assert(h1.nodes@[c as int].index == v); assert(b.push(v) != t) by { if x.len() == 1 { assert(b.push(v).len() == 1); } else { assert(b.push(v).last() == v && t.last() == m); } }
                    assert(h1.at@[b.push(v)] == c); }
            }
            assert(sib_ok(h1, x, n1.sibling));
        }
    }
}
// appending a new vertex at the end of the list of vertices
pub proof fn lem_j_root(h: THeap, h1: THeap, g: Geo, m: u32, pl: int)
    requires jj(h, g), forall|x: Seq<u32>| #[trigger] h.at@.dom().contains(x) ==> inc(x, g.o, m + 1), !h.at@.dom().contains(seq![m]),
        h.at@.dom().contains(seq![(m - 1) as u32]), m >= 1, pl == h.at@[seq![(m - 1) as u32]], forall|v: u32| #[trigger] h.at@.dom().contains(seq![v]) ==> v < m,
        h1.nodes@.len() == h.nodes@.len() + 1 <= MAXLEN,
        forall|i: int| 0 <= i < h.nodes@.len() && i != pl ==> #[trigger] h1.nodes@[i] == h.nodes@[i],
        h1.nodes@[pl] == (TreeNode { sibling: Ptr { v: Some(h.nodes@.len() as usize) }, ..h.nodes@[pl] }),
        h1.nodes@[h.nodes@.len() as int].index == m, h1.nodes@[h.nodes@.len() as int].weight@ == 0real, h1.nodes@[h.nodes@.len() as int].child.v is None, h1.nodes@[h.nodes@.len() as int].parent.v is None, h1.nodes@[h.nodes@.len() as int].sibling.v is None,
        h1.lab@ == h.lab@.push(seq![m]), h1.at@ == h.at@.insert(seq![m], h.nodes@.len() as int), h1.freed == h.freed, !h.freed@.contains(h.nodes@.len() as int),
    ensures jj(h1, g),
{
    reveal(jj);
    let p = h.nodes@.len() as int; let t = seq![m]; let d = h.at@.dom(); let d1 = h1.at@.dom(); let l = seq![(m - 1) as u32];
    let e = Seq::<u32>::empty();
    assert(jnode(h, g, l));
    assert(forall|w: u32| #[trigger] e.push(w) == seq![w]) by { assert forall|w: u32| #[trigger] e.push(w) == seq![w] by { assert(e.push(w) =~= seq![w]); } }
    assert(t.drop_last() =~= e);
    reveal_with_fuel(wt, 2); reveal_with_fuel(maxd, 2);
    assert(wt(g, t) == 0real);
    assert forall|w: u32| !d1.contains(#[trigger] t.push(w)) by { if d1.contains(t.push(w)) { assert(t.push(w).len() == 2); assert(d.contains(t.push(w))); assert(cless(t.push(w)[0], t.push(w)[1])); } }
    assert forall|x: Seq<u32>| #[trigger] d1.contains(x) implies jnode(h1, g, x) by {
        if x == t {
            assert forall|w: u32| d1.contains(#[trigger] e.push(w)) implies w <= m by { if w != m { assert(seq![w][0] == w); assert(d.contains(seq![w])); } }
            assert(kid_ok(h1, t, h1.nodes@[p].parent)); assert(sib_ok(h1, t, h1.nodes@[p].sibling));
        } else {
            assert(d.contains(x)); assert(jnode(h, g, x));
            let q = h.at@[x]; let n = h.nodes@[q]; let n1 = h1.nodes@[q];
            assert(h1.at@[x] == q);
            assert forall|w: u32| d1.contains(#[trigger] x.push(w)) implies d.contains(x.push(w)) by { assert(x.push(w).len() >= 2); }
            match n.parent.v { None => {}, Some(c) => { let v = h.nodes@[c as int].index; assert(h1.nodes@[c as int].index == v); assert(x.push(v).len() >= 2); } }
            assert(kid_ok(h1, x, n1.parent));
            let b = x.drop_last(); assert(x =~= b.push(x.last()));
            if x.len() == 1 {
                assert(b =~= e); let v0 = x.last(); assert(x =~= seq![v0]);
                if x == l {
                    assert(l.last() == m - 1); assert(h1.nodes@[p].index == m);
                    assert forall|w: u32| d1.contains(#[trigger] b.push(w)) && w > x.last() implies w >= m by {}
                    assert(d1.contains(b.push(m)) && h1.at@[b.push(m)] == p);
                    assert(sib_ok(h1, x, n1.sibling));
                } else {
                    assert(q != pl) by { assert(h.lab@[q] == x && h.lab@[pl] == l); }
                    assert(d.contains(seq![v0])); assert(v0 < m); assert(v0 != m - 1); assert(d.contains(b.push((m - 1) as u32)));
                    match n.sibling.v {
                        None => { assert(d.contains(e.push((m - 1) as u32))); assert(false); }
                        Some(c) => { let v = h.nodes@[c as int].index; assert(h1.nodes@[c as int].index == v); assert(d.contains(seq![v])); assert(v <= m - 1); assert(seq![v][0] == v && t[0] == m);
                            assert forall|w: u32| d1.contains(#[trigger] b.push(w)) && w > x.last() implies w >= v by { if w != m { assert(seq![w][0] == w); assert(d.contains(b.push(w))); } } }
                    }
                    assert(sib_ok(h1, x, n1.sibling));
                }
            } else {
                if q == pl { assert(h.lab@[q] == x && h.lab@[pl] == l); }
                assert(n1 == n);
                assert forall|w: u32| d1.contains(#[trigger] b.push(w)) implies d.contains(b.push(w)) by { assert(b.push(w).len() >= 2); }
                match n.sibling.v { None => {}, Some(c) => { let v = h.nodes@[c as int].index; assert(h1.nodes@[c as int].index == v); assert(b.push(v).len() >= 2); } }
                assert(sib_ok(h1, x, n1.sibling));
            }
        }
    }
}
// a first vertex
pub proof fn lem_j_first(h1: THeap, g: Geo, m: u32, p: int)
    requires 0 <= p < h1.nodes@.len() <= MAXLEN, h1.lab@.len() == h1.nodes@.len(), h1.lab@[p] == seq![m], h1.at@ == Map::<Seq<u32>, int>::empty().insert(seq![m], p), !h1.freed@.contains(p),
        h1.nodes@[p].index == m, h1.nodes@[p].weight@ == 0real, h1.nodes@[p].child.v is None, h1.nodes@[p].parent.v is None, h1.nodes@[p].sibling.v is None,
    ensures jj(h1, g),
{
    reveal(jj);
    let t = seq![m]; let e = Seq::<u32>::empty();
    assert(t.drop_last() =~= e);
    reveal_with_fuel(wt, 2); reveal_with_fuel(maxd, 2);
    assert forall|x: Seq<u32>| #[trigger] h1.at@.dom().contains(x) implies jnode(h1, g, x) by {
        assert(x == t);
        assert forall|w: u32| !h1.at@.dom().contains(#[trigger] t.push(w)) by { assert(t.push(w).len() == 2); }
        assert forall|w: u32| h1.at@.dom().contains(#[trigger] e.push(w)) implies w <= m by { assert(e.push(w)[0] == w); assert(t[0] == m); }
    }
}
// unused nodes do not matter
pub proof fn lem_j_alloc(h: THeap, h1: THeap, g: Geo)
    requires jj(h, g), h1.nodes@.len() == h.nodes@.len() + 1 <= MAXLEN, forall|i: int| 0 <= i < h.nodes@.len() ==> #[trigger] h1.nodes@[i] == h.nodes@[i], h1.lab@ == h.lab@.push(Seq::<u32>::empty()), h1.at == h.at, h1.freed == h.freed
    ensures jj(h1, g)
{
    reveal(jj);
    assert forall|x: Seq<u32>| #[trigger] h1.at@.dom().contains(x) implies jnode(h1, g, x) by {
        assert(jnode(h, g, x)); let n = h.nodes@[h.at@[x]];
        match n.parent.v { None => {}, Some(c) => { assert(h1.nodes@[c as int] == h.nodes@[c as int]); } }
        match n.sibling.v { None => {}, Some(c) => { assert(h1.nodes@[c as int] == h.nodes@[c as int]); } }
    }
}
// ------------------------------------------------------------ the listing
pub type TEntry = (CSet<u32>, F64);
pub type TGraph = Seq<CVec<TEntry>>;
pub open spec fn ent(g: Geo, x: Seq<u32>) -> TEntry { (cset_of(x.to_set()), f64_of(wt(g, x))) }
pub open spec fn listed(g: Geo, d: Set<Seq<u32>>, k: int, e: TEntry) -> bool { exists|x: Seq<u32>| #[trigger] d.contains(x) && x.len() == k && e == ent(g, x) }
pub open spec fn totn(w: TGraph, k: int) -> int decreases k { if k <= 0 { 0 } else { totn(w, k - 1) + w[k - 1]@.len() } }
/// every simplex of d is listed, with its weight, exactly once at its size, and nothing else is
#[verifier::opaque]
pub open spec fn rep(w: TGraph, g: Geo, d: Set<Seq<u32>>) -> bool {
    &&& forall|k: int, i: int| 0 <= k < w.len() && 0 <= i < w[k]@.len() ==> listed(g, d, k + 1, #[trigger] w[k]@[i])
    &&& forall|k: int| #![trigger w[k]] 0 <= k < w.len() ==> w[k]@.len() > 0 && dupfree(w[k]@)
    &&& forall|x: Seq<u32>| #[trigger] d.contains(x) ==> 1 <= x.len() <= w.len() && w[x.len() - 1]@.contains(ent(g, x))
}
pub proof fn lem_ent_inj(g: Geo, x: Seq<u32>, y: Seq<u32>) requires sorted_lt(x), sorted_lt(y), ent(g, x).0 == ent(g, y).0 ensures x == y
{
    assert(ent(g, x).0.s() == x.to_set()); assert(ent(g, y).0.s() == y.to_set());
    assert forall|z: u32| #[trigger] x.contains(z) <==> y.contains(z) by { assert(x.to_set().contains(z) <==> y.to_set().contains(z)); }
    lem_sorted_same(x, y);
}
pub proof fn lem_totn_nonneg(w: TGraph, k: int) ensures totn(w, k) >= 0 decreases k { if k > 0 { lem_totn_nonneg(w, k - 1); } }
pub proof fn lem_totn_upd(w: TGraph, w1: TGraph, j: int, k: int) requires 0 <= j < w.len(), w1.len() == w.len(), forall|i: int| 0 <= i < w.len() && i != j ==> #[trigger] w1[i] == w[i], w1[j]@.len() == w[j]@.len() + 1, 0 <= k <= w.len()
    ensures totn(w1, k) == totn(w, k) + (if k > j { 1int } else { 0 }) decreases k { if k > 0 { lem_totn_upd(w, w1, j, k - 1); } }
pub proof fn lem_totn_same(w: TGraph, w1: TGraph, k: int) requires 0 <= k <= w.len(), k <= w1.len(), forall|i: int| 0 <= i < k ==> (#[trigger] w1[i])@.len() == w[i]@.len() ensures totn(w1, k) == totn(w, k) decreases k
{ if k > 0 { lem_totn_same(w, w1, k - 1); assert(w1[k - 1]@.len() == w[k - 1]@.len()); } }
pub proof fn lem_rep_add(w: TGraph, w1: TGraph, g: Geo, d: Set<Seq<u32>>, x: Seq<u32>)
    requires rep(w, g, d), !d.contains(x), sorted_lt(x), forall|y: Seq<u32>| #[trigger] d.contains(y) ==> sorted_lt(y), 1 <= x.len() <= w.len() + 1,
        x.len() <= w.len() ==> w1.len() == w.len() && w1[x.len() - 1]@ == w[x.len() - 1]@.push(ent(g, x)) && forall|i: int| 0 <= i < w.len() && i != x.len() - 1 ==> #[trigger] w1[i] == w[i],
        x.len() == w.len() + 1 ==> w1.len() == w.len() + 1 && w1[w.len() as int]@ == seq![ent(g, x)] && forall|i: int| 0 <= i < w.len() ==> #[trigger] w1[i] == w[i],
    ensures rep(w1, g, d.insert(x)), totn(w1, w1.len() as int) == totn(w, w.len() as int) + 1,
{
    reveal(rep);
    let d1 = d.insert(x); let c = x.len() - 1; let e = ent(g, x);
    assert forall|k: int, i: int| 0 <= k < w1.len() && 0 <= i < w1[k]@.len() implies listed(g, d1, k + 1, #[trigger] w1[k]@[i]) by {
        if k == c && (c == w.len() || i == w[c]@.len()) { assert(d1.contains(x)); assert(w1[k]@[i] == e); }
        else { assert(w1[k]@[i] == w[k]@[i]); assert(listed(g, d, k + 1, w[k]@[i])); let y = choose|y: Seq<u32>| #[trigger] d.contains(y) && y.len() == k + 1 && w[k]@[i] == ent(g, y); assert(d1.contains(y)); }
    }
    assert forall|k: int| #![trigger w1[k]] 0 <= k < w1.len() implies w1[k]@.len() > 0 && dupfree(w1[k]@) by {
        if k == c && c < w.len() {
            let l = w[c]@; assert(dupfree(l));
            assert forall|i: int, j: int| #![trigger w1[c]@[i], w1[c]@[j]] 0 <= i < j < w1[c]@.len() implies w1[c]@[i] != w1[c]@[j] by {
                if j < l.len() { assert(l[i] != l[j]); }
                else { assert(listed(g, d, k + 1, w[k]@[i])); let y = choose|y: Seq<u32>| #[trigger] d.contains(y) && y.len() == k + 1 && w[k]@[i] == ent(g, y); if ent(g, y) == e { lem_ent_inj(g, x, y); } }
            }
        } else if k < w.len() { assert(w1[k] == w[k]); assert(dupfree(w[k]@)); }
    }
    assert forall|y: Seq<u32>| #[trigger] d1.contains(y) implies 1 <= y.len() <= w1.len() && w1[y.len() - 1]@.contains(ent(g, y)) by {
        if y == x { let q = w1[c]@; assert(q[q.len() - 1] == e); }
        else { assert(d.contains(y)); let l = w[y.len() - 1]@; let i = choose|i: int| 0 <= i < l.len() && l[i] == ent(g, y); assert(w1[y.len() - 1]@[i] == l[i]); }
    }
    if c < w.len() { lem_totn_upd(w, w1, c, w.len() as int); } else { lem_totn_same(w, w1, w.len() as int); }
}
pub proof fn lem_perm_same<T>(a: Seq<T>, b: Seq<T>) requires perm(a, b), dupfree(a) ensures dupfree(b), forall|x: T| #[trigger] b.contains(x) <==> a.contains(x)
{
    broadcast use vstd::seq_lib::group_to_multiset_ensures;
    assert(a.no_duplicates());
    a.lemma_multiset_has_no_duplicates();
    assert(a.to_multiset() == b.to_multiset());
    assert forall|x: T| b.to_multiset().contains(x) implies b.to_multiset().count(x) == 1 by { assert(a.to_multiset().contains(x)); }
    b.lemma_multiset_has_no_duplicates_conv();
    assert forall|x: T| #[trigger] b.contains(x) <==> a.contains(x) by { assert(a.to_multiset().count(x) == b.to_multiset().count(x)); }
}
pub proof fn lem_rep_sort(w: TGraph, w1: TGraph, g: Geo, d: Set<Seq<u32>>)
    requires rep(w, g, d), w1.len() == w.len(), forall|k: int| 0 <= k < w.len() ==> perm(w[k]@, #[trigger] w1[k]@) && w1[k]@.len() == w[k]@.len() ensures rep(w1, g, d), totn(w1, w1.len() as int) == totn(w, w.len() as int)
{
    reveal(rep);
    assert forall|k: int, i: int| 0 <= k < w1.len() && 0 <= i < w1[k]@.len() implies listed(g, d, k + 1, #[trigger] w1[k]@[i]) by {
        lem_perm_same(w[k]@, w1[k]@); let e = w1[k]@[i]; assert(w1[k]@.contains(e)); let j = choose|j: int| 0 <= j < w[k]@.len() && w[k]@[j] == e; assert(listed(g, d, k + 1, w[k]@[j]));
    }
    assert forall|k: int| #![trigger w1[k]] 0 <= k < w1.len() implies w1[k]@.len() > 0 && dupfree(w1[k]@) by { lem_perm_same(w[k]@, w1[k]@); assert(w[k]@.len() > 0); }
    assert forall|x: Seq<u32>| #[trigger] d.contains(x) implies 1 <= x.len() <= w1.len() && w1[x.len() - 1]@.contains(ent(g, x)) by { lem_perm_same(w[x.len() - 1]@, w1[x.len() - 1]@); }
    lem_totn_same(w, w1, w.len() as int);
}
// ------------------------------------------------------------ the state of a tree
pub open spec fn geo(t: SimplexTree, o: int) -> Geo { Geo { d: t.distMatrix@, o: o, eps: t.maxEpsilon@, md: t.maxDimension as int } }
pub open spec fn base(t: SimplexTree) -> int { t.runningVectorCount - t.runningVectorIndices@.len() }
pub open spec fn sorted_wt(s: Seq<TEntry>) -> bool { forall|i: int, j: int| #![trigger s[i], s[j]] 0 <= i < j < s.len() ==> s[i].1@ <= s[j].1@ }
pub open spec fn tree(t: SimplexTree) -> bool {
    let o = base(t); let g = geo(t, o); let m = t.runningVectorCount as int; let n = t.runningVectorIndices@.len();
    &&& 0 <= o && t.indexCounter == m && 1 <= t.maxDimension < MAXLEN && square(t.distMatrix@) && n <= t.distMatrix@.len()
    &&& jj(t.heap, g) && forall|x: Seq<u32>| #[trigger] t.heap.at@.dom().contains(x) <==> simplex(g, m, x)
    &&& rep(t.weightEdgeGraph@, g, t.heap.at@.dom()) && t.nodeCount == totn(t.weightEdgeGraph@, t.weightEdgeGraph@.len() as int) <= t.heap.nodes@.len()
    &&& t.isSorted ==> forall|k: int| 0 <= k < t.weightEdgeGraph@.len() ==> sorted_wt(#[trigger] t.weightEdgeGraph@[k]@)
    &&& n == 0 ==> t.head.v is None && t.dimensions@.len() == 0 && t.weightEdgeGraph@.len() == 0
    &&& n > 0 ==> t.heap.at@.dom().contains(seq![o as u32]) && t.head.v == Some(t.heap.at@[seq![o as u32]] as usize) && t.dimensions@.len() > 0 && t.dimensions@[0] == t.head
}
pub open spec fn added(g: Geo, m: u32, s: Seq<u32>, x: Seq<u32>) -> bool { x.len() >= 2 && x.last() == m && pre(s, x.drop_last()) && simplex(g, m + 1, x) }
/// what holds while vertex m is being added below the simplices visited so far
pub open spec fn mid(t: SimplexTree, o: int) -> bool {
    let g = geo(t, o); let m = t.runningVectorCount as int;
    &&& o == t.runningVectorCount + 1 - t.runningVectorIndices@.len() && 0 <= o <= m < MAXLEN - 1 && t.indexCounter == m && 1 <= t.maxDimension < MAXLEN && square(t.distMatrix@) && m - o < t.distMatrix@.len()
    &&& jj(t.heap, g) && rep(t.weightEdgeGraph@, g, t.heap.at@.dom()) && t.nodeCount == totn(t.weightEdgeGraph@, t.weightEdgeGraph@.len() as int) <= t.heap.nodes@.len()
    &&& (forall|x: Seq<u32>| #[trigger] t.heap.at@.dom().contains(x) ==> simplex(g, m + 1, x))
    &&& (forall|x: Seq<u32>| #[trigger] simplex(g, m, x) ==> t.heap.at@.dom().contains(x))
}
pub proof fn lem_added_none(g: Geo, m: u32, s: Seq<u32>, x: Seq<u32>) requires s.len() >= 1, wt(g, s.push(m)) >= g.eps ensures !added(g, m, s, x)
{ if added(g, m, s, x) { let y = x.drop_last(); lem_pre_wt(g, s, y, m); assert(x =~= y.push(m)); } }
/// below s: s itself, or through a child
pub proof fn lem_added_split(g: Geo, m: u32, s: Seq<u32>, x: Seq<u32>) requires s.len() >= 1, added(g, m, s, x)
    ensures x == s.push(m) || { let y = x.drop_last(); y.len() > s.len() && added(g, m, s.push(y[s.len() as int]), x) && simplex(g, m as int, s.push(y[s.len() as int])) && y[s.len() as int] < m && y.len() <= g.md }
{
    let y = x.drop_last(); let k = s.len() as int;
    assert(x =~= y.push(m));
    if y.len() == s.len() { assert(y =~= s); }
    else {
        let v = y[k]; let sv = s.push(v);
        assert(y.subrange(0, k + 1) =~= sv);
        assert(pre(sv, y)); assert(pre(sv, x)) by { assert(x.subrange(0, k + 1) =~= sv); }
        lem_simplex_pre(g, m + 1, sv, x);
        lem_inc_sub(x, g.o, m + 1, k + 1); assert(x.subrange(0, k + 1) =~= sv);
        assert(cless(x[k], x[x.len() - 1])); assert(v < m);
        assert(x[k + 1] <= m) by { if k + 1 < x.len() - 1 { assert(cless(x[k + 1], x[x.len() - 1])); } }
    }
}
pub proof fn lem_added_sub(g: Geo, m: u32, s: Seq<u32>, v: u32, x: Seq<u32>) requires added(g, m, s.push(v), x)
    ensures added(g, m, s, x), x.drop_last().len() > s.len(), x.drop_last()[s.len() as int] == v
{
    let y = x.drop_last(); let sv = s.push(v); let k = s.len() as int;
    assert(y.subrange(0, k) =~= s) by { assert forall|i: int| 0 <= i < k implies y[i] == s[i] by { assert(y.subrange(0, k + 1)[i] == sv[i]); } }
    assert(y.subrange(0, k + 1)[k] == sv[k]);
}
/// the new simplices below s that run through children v >= b (strictly: v > b)
pub open spec fn through(g: Geo, m: u32, s: Seq<u32>, x: Seq<u32>, b: int) -> bool { added(g, m, s, x) && x.drop_last().len() > s.len() && x.drop_last()[s.len() as int] >= b }
pub proof fn lem_tset(s: Seq<u32>, a: u32) ensures s.push(a).to_set() =~= s.to_set().insert(a)
{
    let p = s.push(a);
    assert forall|x: u32| p.to_set().contains(x) <==> s.to_set().insert(a).contains(x) by {
        if p.contains(x) { let k = choose|k: int| 0 <= k < p.len() && p[k] == x; if k < s.len() { assert(s[k] == x); } }
        if s.contains(x) { let k = choose|k: int| 0 <= k < s.len() && s[k] == x; assert(p[k] == x); }
        assert(p[s.len() as int] == a);
    }
}
// the list of children is walked from the newest
pub proof fn lem_kids(h0: THeap, h1: THeap, g: Geo, s: Seq<u32>, m: u32, c: Ptr)
    requires jj(h0, g), h0.at@.dom().contains(s), c == h0.nodes@[h0.at@[s]].parent, c.v is Some, !h0.at@.dom().contains(s.push(m)), forall|x: Seq<u32>| #[trigger] h0.at@.dom().contains(x) ==> inc(x, g.o, m + 1)
    ensures live(h0, c), labp(h0, c) == s.push(labp(h0, c).last()), labp(h0, c).last() < m, forall|w: u32| #[trigger] h0.at@.dom().contains(s.push(w)) ==> w <= labp(h0, c).last()
{
    lem_j(h0, g, s); let v = h0.nodes@[c.v->0 as int].index; lem_j(h0, g, s.push(v)); assert(s.push(v).last() == v); assert(inc(s.push(v), g.o, m + 1)); assert(s.push(v)[s.len() as int] == v);
}
pub proof fn lem_through(h0: THeap, h: THeap, hb: THeap, g: Geo, m: u32, s: Seq<u32>, v: u32)
    requires s.len() >= 1, forall|x: Seq<u32>| #[trigger] hb.at@.dom().contains(x) <==> h0.at@.dom().contains(x) || x == s.push(m) || through(g, m, s, x, v + 1),
        forall|x: Seq<u32>| #[trigger] h.at@.dom().contains(x) <==> hb.at@.dom().contains(x) || added(g, m, s.push(v), x),
    ensures forall|x: Seq<u32>| #[trigger] h.at@.dom().contains(x) <==> h0.at@.dom().contains(x) || x == s.push(m) || through(g, m, s, x, v as int)
{
    assert forall|x: Seq<u32>| #[trigger] h.at@.dom().contains(x) <==> h0.at@.dom().contains(x) || x == s.push(m) || through(g, m, s, x, v as int) by {
        if added(g, m, s.push(v), x) { lem_added_sub(g, m, s, v, x); }
        if through(g, m, s, x, v as int) { lem_added_split(g, m, s, x); assert(s.push(m).drop_last() =~= s); assert(hb.at@.dom().contains(x) || added(g, m, s.push(v), x)); }
    }
}
pub proof fn lem_next(h0: THeap, h: THeap, g: Geo, m: u32, s: Seq<u32>, v: u32, c: Ptr)
    requires s.len() >= 1, jj(h, g), jj(h0, g), v < m, h.at@.dom().contains(s.push(v)), c == h.nodes@[h.at@[s.push(v)]].sibling, added(g, m, s, s.push(m)),
        forall|x: Seq<u32>| #[trigger] h.at@.dom().contains(x) <==> h0.at@.dom().contains(x) || x == s.push(m) || through(g, m, s, x, v as int),
        forall|x: Seq<u32>| #[trigger] simplex(g, m as int, x) ==> h0.at@.dom().contains(x),
        forall|x: Seq<u32>| #[trigger] h0.at@.dom().contains(x) ==> h.at@[x] == h0.at@[x], h0.lab@.len() <= h.lab@.len(), forall|i: int| 0 <= i < h0.lab@.len() ==> #[trigger] h.lab@[i] == h0.lab@[i],
    ensures
        c.v is None ==> forall|x: Seq<u32>| #[trigger] h.at@.dom().contains(x) <==> h0.at@.dom().contains(x) || added(g, m, s, x),
        c.v is Some ==> live(h0, c) && labp(h0, c) == s.push(labp(h0, c).last()) && labp(h0, c).last() < v && forall|x: Seq<u32>| #[trigger] h.at@.dom().contains(x) <==> h0.at@.dom().contains(x) || x == s.push(m) || through(g, m, s, x, labp(h0, c).last() + 1),
{
    let sv = s.push(v);
    assert(sv.drop_last() =~= s); assert(sv.last() == v);
    lem_j(h, g, sv);
    match c.v {
        None => {
            assert forall|x: Seq<u32>| #[trigger] h.at@.dom().contains(x) <==> h0.at@.dom().contains(x) || added(g, m, s, x) by {
                if added(g, m, s, x) { lem_added_split(g, m, s, x); if x != s.push(m) { let w = x.drop_last()[s.len() as int]; assert(simplex(g, m as int, s.push(w))); assert(h0.at@.dom().contains(s.push(w))); assert(h.at@.dom().contains(s.push(w))); assert(through(g, m, s, x, v as int)); } }
            }
        }
        Some(q) => {
            let u = h.nodes@[q as int].index; let su = s.push(u);
            assert(h.at@.dom().contains(su)); assert(su.last() == u); assert(s.push(m).last() == m);
            assert(h0.at@.dom().contains(su)); lem_j(h0, g, su); lem_j(h, g, su);
            assert(live(h0, c)); assert(labp(h0, c) == su);
            assert forall|x: Seq<u32>| #[trigger] h.at@.dom().contains(x) <==> h0.at@.dom().contains(x) || x == s.push(m) || through(g, m, s, x, u + 1) by {
                if through(g, m, s, x, u + 1) { lem_added_split(g, m, s, x); let w = x.drop_last()[s.len() as int];
                    if x != s.push(m) { assert(simplex(g, m as int, s.push(w))); assert(h0.at@.dom().contains(s.push(w))); assert(h.at@.dom().contains(s.push(w))); assert(w >= v); } }
            }
        }
    }
}
// ------------------------------------------------------------ adding a vertex
pub open spec fn fresh(g: Geo, m: u32, x: Seq<u32>, b: int) -> bool { x.len() >= 2 && x.last() == m && simplex(g, m + 1, x) && x[0] < b }
pub proof fn lem_fresh(g: Geo, m: u32, v: u32, x: Seq<u32>) ensures added(g, m, seq![v], x) <==> x.len() >= 2 && x.last() == m && simplex(g, m + 1, x) && x[0] == v
{
    if x.len() >= 2 { let y = x.drop_last(); assert(y.subrange(0, 1) =~= seq![y[0]]); assert(y[0] == x[0]); assert(seq![v][0] == v); assert(seq![y[0]][0] == y[0]); }
}
pub proof fn lem_one(g: Geo, m: int, v: u32) ensures simplex(g, m, seq![v]) <==> (g.o <= v < m && g.md >= 0), wt(g, seq![v]) == 0real, seq![v].last() == v, seq![v].drop_last() =~= Seq::<u32>::empty(), Seq::<u32>::empty().push(v) =~= seq![v], sorted_lt(seq![v])
{ reveal_with_fuel(wt, 2); reveal_with_fuel(maxd, 2); assert(inc(seq![v], g.o, m) ==> g.o <= seq![v][0] < m); }
pub proof fn lem_single(x: Seq<u32>) requires x.len() == 1 ensures x =~= seq![x.last()] {}
pub proof fn lem_root_next(h0: THeap, h: THeap, g: Geo, m: u32, v: u32, c: Ptr)
    requires jj(h, g), jj(h0, g), g.o <= v < m, g.md >= 1, h.at@.dom().contains(seq![v]), c == h.nodes@[h.at@[seq![v]]].sibling,
        forall|x: Seq<u32>| #[trigger] h.at@.dom().contains(x) <==> h0.at@.dom().contains(x) || fresh(g, m, x, v + 1),
        forall|x: Seq<u32>| #[trigger] h0.at@.dom().contains(x) <==> simplex(g, m as int, x),
        forall|x: Seq<u32>| #[trigger] h0.at@.dom().contains(x) ==> h.at@[x] == h0.at@[x], h0.lab@.len() <= h.lab@.len(), forall|i: int| 0 <= i < h0.lab@.len() ==> #[trigger] h.lab@[i] == h0.lab@[i],
    ensures c.v is None <==> v + 1 == m, c.v is Some ==> live(h0, c) && labp(h0, c) == seq![(v + 1) as u32],
        c.v is None ==> forall|x: Seq<u32>| #[trigger] h.at@.dom().contains(x) <==> h0.at@.dom().contains(x) || fresh(g, m, x, m as int)
{
    let e = Seq::<u32>::empty(); let sv = seq![v];
    lem_one(g, m as int, v); lem_j(h, g, sv); assert(sv.drop_last() =~= e);
    if v + 1 < m { let w = (v + 1) as u32; lem_one(g, m as int, w); assert(h0.at@.dom().contains(seq![w])); assert(h.at@.dom().contains(e.push(w))); }
    match c.v {
        None => {
            assert(v + 1 == m);
            assert forall|x: Seq<u32>| #[trigger] h.at@.dom().contains(x) <==> h0.at@.dom().contains(x) || fresh(g, m, x, m as int) by {}
        }
        Some(q) => {
            let u = h.nodes@[q as int].index; let su = seq![u];
            assert(e.push(u) =~= su); assert(h.at@.dom().contains(su)); lem_one(g, m as int, u); assert(h0.at@.dom().contains(su)); lem_j(h0, g, su); lem_j(h, g, su); assert(u < m); assert(u == v + 1);
        }
    }
}
pub open spec fn root_sib(h: THeap, g: Geo, m: u32, p: Ptr) -> bool {
    &&& labp(h, p) == seq![labp(h, p).last()] && g.o <= labp(h, p).last() < m && h.ok(p) && (h.nd(p).sibling.v is None <==> labp(h, p).last() + 1 == m)
    &&& h.nd(p).sibling.v is Some ==> h.ok(h.nd(p).sibling) && live(h, h.nd(p).sibling) && labp(h, h.nd(p).sibling).len() == 1 && labp(h, h.nd(p).sibling).last() == labp(h, p).last() + 1
}
pub proof fn lem_root_sib(h: THeap, g: Geo, m: u32, p: Ptr)
    requires jj(h, g), live(h, p), labp(h, p).len() == 1, g.md >= 1, !h.at@.dom().contains(seq![m]), forall|x: Seq<u32>| #[trigger] h.at@.dom().contains(x) ==> simplex(g, m + 1, x), forall|x: Seq<u32>| #[trigger] simplex(g, m as int, x) ==> h.at@.dom().contains(x)
    ensures root_sib(h, g, m, p)
{
    let x = labp(h, p); let v = x.last(); let e = Seq::<u32>::empty();
    lem_single(x); lem_one(g, m + 1, v); lem_live(h, g, p); assert(x.drop_last() =~= e); assert(v != m);
    if v + 1 < m { let w = (v + 1) as u32; lem_one(g, m as int, w); assert(h.at@.dom().contains(e.push(w))); }
    match h.nd(p).sibling.v {
        None => {}
        Some(q) => { let u = h.nodes@[q as int].index; lem_one(g, m + 1, u); assert(h.at@.dom().contains(e.push(u))); assert(e.push(u) =~= seq![u]); lem_j(h, g, seq![u]); assert(u != m); lem_live(h, g, h.nd(p).sibling); assert(seq![u].last() == u); }
    }
}
pub proof fn lem_final_dom(g: Geo, m: u32, x: Seq<u32>) requires g.md >= 1, g.o <= m, m < 0xffff_ffff
    ensures simplex(g, m + 1, x) <==> simplex(g, m as int, x) || fresh(g, m, x, m as int) || x == seq![m]
{
    lem_one(g, m + 1, m);
    if simplex(g, m + 1, x) && x.last() == m { if x.len() == 1 { lem_single(x); } else { assert(cless(x[0], x[x.len() - 1])); } }
    if simplex(g, m + 1, x) && x.last() != m {
        let l = x.len() - 1;
        assert(x[l] == x.last()); assert(x[l] < m);
        assert forall|i: int| 0 <= i < x.len() implies g.o <= #[trigger] x[i] < m by { if i < l { assert(cless(x[i], x[l])); } }
        assert(inc(x, g.o, m as int));
    }
    if simplex(g, m as int, x) { assert(inc(x, g.o, m + 1)); }
}
pub proof fn lem_empty_tree(h: THeap, g: Geo, w: TGraph) requires h.at@ =~= Map::<Seq<u32>, int>::empty(), h.lab@.len() == h.nodes@.len() <= MAXLEN, w.len() == 0 ensures jj(h, g), rep(w, g, h.at@.dom())
{ reveal(jj); reveal(rep); }
pub proof fn lem_no_simplex(g: Geo, m: int, x: Seq<u32>) requires g.o >= m ensures !simplex(g, m, x) { if simplex(g, m, x) { assert(g.o <= x[0] < m); } }
/// what the property says, for a single candidate set of vertices
pub proof fn th_tree(t: SimplexTree, x: Seq<u32>)
    requires tree(t), inc(x, base(t), t.runningVectorCount as int), 1 <= x.len() <= t.maxDimension + 1
    ensures ({ let g = geo(t, base(t)); let w = t.weightEdgeGraph@; (x.len() == 1 || pairs_below(g, x, g.eps)) <==> (x.len() <= w.len() && exists|i: int| 0 <= i < w[x.len() - 1]@.len() && (#[trigger] w[x.len() - 1]@[i]).0.s() == x.to_set()) })
{
    let g = geo(t, base(t)); let w = t.weightEdgeGraph@; let d = t.heap.at@.dom(); let m = t.runningVectorCount as int;
    if x.len() > 1 {
        if g.eps > 0real { lem_wt_pairs(g, x, g.eps); }
        else { lem_wt_nonneg(g, x); assert(g.o <= x[0] < m && g.o <= x[1] < m); assert(tdist(g, x[0], x[1]) >= 0real); }
    }
    assert((x.len() == 1 || pairs_below(g, x, g.eps)) <==> simplex(g, m, x));
    reveal(rep);
    if simplex(g, m, x) { assert(d.contains(x)); let l = w[x.len() - 1]@; let i = choose|i: int| 0 <= i < l.len() && l[i] == ent(g, x); assert(l[i].0.s() == x.to_set()); }
    if x.len() <= w.len() && exists|i: int| 0 <= i < w[x.len() - 1]@.len() && (#[trigger] w[x.len() - 1]@[i]).0.s() == x.to_set() {
        let l = w[x.len() - 1]@; let i = choose|i: int| 0 <= i < l.len() && (#[trigger] l[i]).0.s() == x.to_set();
        assert(listed(g, d, x.len() as int, l[i])); let y = choose|y: Seq<u32>| #[trigger] d.contains(y) && y.len() == x.len() && l[i] == ent(g, y);
        assert(simplex(g, m, y)); assert(ent(g, x).0 == ent(g, y).0); lem_ent_inj(g, x, y);
    }
}
