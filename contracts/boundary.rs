pub open spec fn of_size(c: Seq<(F64, CVec<u32>)>, k: int, n: int, eps: real) -> Seq<CVec<u32>> decreases k
{ if k <= 0 { Seq::<CVec<u32>>::empty() } else if c[k - 1].1@.len() == n && c[k - 1].0@ <= eps { of_size(c, k - 1, n, eps).push(c[k - 1].1) } else { of_size(c, k - 1, n, eps) } }
pub open spec fn face_bit(a: Set<u32>, b: Set<u32>) -> int { if b.len() == 0 || symdiff(a, b).len() == 1 { 1 } else { 0 } }
// ---------------------------------------------------------------- vectors over the two-element field
pub open spec fn bx(a: u32, b: u32) -> u32 { if a == b { 0 } else { 1 } }
pub open spec fn vx(u: Seq<u32>, v: Seq<u32>) -> Seq<u32> { Seq::new(u.len(), |c: int| bx(u[c], v[c])) }
pub open spec fn bin(v: Seq<u32>, n: int) -> bool { v.len() == n && forall|c: int| 0 <= c < n ==> (#[trigger] v[c]) <= 1 }
pub open spec fn zeros(v: Seq<u32>) -> bool { forall|c: int| 0 <= c < v.len() ==> (#[trigger] v[c]) == 0 }
pub open spec fn binm(m: Seq<CVec<u32>>, n: int) -> bool { forall|k: int| 0 <= k < m.len() ==> bin((#[trigger] m[k])@, n) }
// v is a sum of some of the first k rows
pub open spec fn span(m: Seq<CVec<u32>>, k: int, v: Seq<u32>) -> bool decreases k
{ if k <= 0 { zeros(v) } else { span(m, k - 1, v) || span(m, k - 1, vx(v, m[k - 1]@)) } }
// row k is not a sum of earlier rows
pub open spec fn pivot(m: Seq<CVec<u32>>, k: int) -> bool { 0 <= k < m.len() && !span(m, k, m[k]@) }
// rank of the first k rows: each row that is not spanned by earlier ones adds one dimension
pub open spec fn rank(m: Seq<CVec<u32>>, k: int) -> int decreases k
{ if k <= 0 { 0 } else { rank(m, k - 1) + (if pivot(m, k - 1) { 1int } else { 0 }) } }
pub proof fn lem_xor(a: u32, b: u32) requires a <= 1, b <= 1 ensures (a ^ b) == bx(a, b), (a ^ b) <= 1
{ assert(a <= 1 && b <= 1 ==> (a ^ b) == (if a == b { 0u32 } else { 1u32 })) by(bit_vector); }
pub proof fn lem_span_mono(m: Seq<CVec<u32>>, k: int, l: int, v: Seq<u32>) requires 0 <= k <= l, span(m, k, v) ensures span(m, l, v) decreases l
{ if l > k { lem_span_mono(m, k, l - 1, v); } }
pub proof fn lem_span_add(m: Seq<CVec<u32>>, n: int, k: int, u: Seq<u32>, v: Seq<u32>)
    requires 0 <= k <= m.len(), binm(m, n), bin(u, n), bin(v, n), span(m, k, u), span(m, k, v)
    ensures span(m, k, vx(u, v)) decreases k
{
    if k > 0 {
        let r = m[k - 1]@; assert(bin(r, n));
        if span(m, k - 1, u) {
            if span(m, k - 1, v) { lem_span_add(m, n, k - 1, u, v); }
            else { lem_span_add(m, n, k - 1, u, vx(v, r)); assert(vx(u, vx(v, r)) =~= vx(vx(u, v), r)); }
        } else {
            if span(m, k - 1, v) { lem_span_add(m, n, k - 1, vx(u, r), v); assert(vx(vx(u, r), v) =~= vx(vx(u, v), r)); }
            else { lem_span_add(m, n, k - 1, vx(u, r), vx(v, r)); assert(vx(vx(u, r), vx(v, r)) =~= vx(u, v)); }
        }
    }
}
pub open spec fn lin(f: spec_fn(Seq<u32>) -> Seq<u32>, n: int) -> bool {
    &&& forall|u: Seq<u32>| bin(u, n) ==> bin(#[trigger] f(u), n)
    &&& forall|u: Seq<u32>, v: Seq<u32>| bin(u, n) && bin(v, n) ==> #[trigger] f(vx(u, v)) == vx(f(u), f(v))
}
// a linear map that kills column i of the first k rows kills it on their span
pub proof fn lem_functional(m: Seq<CVec<u32>>, n: int, f: spec_fn(Seq<u32>) -> Seq<u32>, i: int, k: int, v: Seq<u32>)
    requires 0 <= k <= m.len(), 0 <= i < n, binm(m, n), lin(f, n), bin(v, n), span(m, k, v), forall|l: int| 0 <= l < k ==> f((#[trigger] m[l])@)[i] == 0
    ensures f(v)[i] == 0 decreases k
{
    if k <= 0 {
        assert(vx(v, v) =~= v); assert(f(vx(v, v)) == vx(f(v), f(v)));
        assert(bin(f(v), n)); assert(vx(f(v), f(v))[i] == 0);
    } else if span(m, k - 1, v) { lem_functional(m, n, f, i, k - 1, v); }
    else {
        let r = m[k - 1]@; assert(bin(r, n)); assert(bin(vx(v, r), n));
        lem_functional(m, n, f, i, k - 1, vx(v, r));
        assert(f(vx(v, r)) == vx(f(v), f(r))); assert(bin(f(v), n) && bin(f(r), n));
        assert(vx(f(v), f(r))[i] == bx(f(v)[i], f(r)[i]));
    }
}
// ---------------------------------------------------------------- one elimination step, stated for all rows at once
pub open spec fn step1(i: int, p: Seq<u32>, w: Seq<u32>) -> Seq<u32> { if w[i] == 1 { vx(w, p) } else { w } }
pub open spec fn compose(i: int, p: Seq<u32>, f: spec_fn(Seq<u32>) -> Seq<u32>) -> spec_fn(Seq<u32>) -> Seq<u32> { |v: Seq<u32>| step1(i, p, f(v)) }
pub proof fn lem_compose(n: int, f: spec_fn(Seq<u32>) -> Seq<u32>, i: int, p: Seq<u32>)
    requires lin(f, n), bin(p, n), 0 <= i < n ensures lin(compose(i, p, f), n)
{
    let g = compose(i, p, f);
    assert forall|u: Seq<u32>, v: Seq<u32>| bin(u, n) && bin(v, n) implies #[trigger] g(vx(u, v)) == vx(g(u), g(v)) by {
        let a = f(u); let b = f(v); assert(bin(a, n) && bin(b, n)); assert(f(vx(u, v)) == vx(a, b));
        assert(vx(a, b)[i] == bx(a[i], b[i]));
        assert(g(vx(u, v)) =~= vx(g(u), g(v)));
    }
}
// state of the reduction before column i: c holds f(row) for every row, the rows in p are the pivots found so far
pub open spec fn red(m: Seq<CVec<u32>>, n: int, i: int, f: spec_fn(Seq<u32>) -> Seq<u32>, p: Set<int>) -> bool {
    &&& binm(m, n) && lin(f, n)
    &&& forall|k: int, c: int| 0 <= k < m.len() && 0 <= c < i ==> #[trigger] f(m[k]@)[c] == 0
    &&& forall|k: int| 0 <= k < m.len() && !p.contains(k) ==> #[trigger] span(m, k, vx(f(m[k]@), m[k]@))
    &&& forall|k: int| #[trigger] p.contains(k) ==> pivot(m, k) && zeros(f(m[k]@))
}
pub proof fn lem_red_init(m: Seq<CVec<u32>>, n: int, f: spec_fn(Seq<u32>) -> Seq<u32>)
    requires binm(m, n), f == (|v: Seq<u32>| v) ensures red(m, n, 0, f, Set::<int>::empty())
{
    assert forall|k: int| 0 <= k < m.len() implies #[trigger] span(m, k, vx(f(m[k]@), m[k]@)) by { assert(bin(m[k]@, n)); lem_span_mono(m, 0, k, vx(m[k]@, m[k]@)); }
}
pub proof fn lem_red_skip(m: Seq<CVec<u32>>, n: int, i: int, f: spec_fn(Seq<u32>) -> Seq<u32>, p: Set<int>)
    requires 0 <= i < n, red(m, n, i, f, p), forall|k: int| 0 <= k < m.len() ==> f((#[trigger] m[k])@)[i] == 0
    ensures red(m, n, i + 1, f, p)
{
    assert forall|k: int, c: int| 0 <= k < m.len() && 0 <= c < i + 1 implies #[trigger] f(m[k]@)[c] == 0 by { assert(bin(m[k]@, n)); if c == i { assert(f((m[k])@)[i] == 0); } }
}
pub proof fn lem_red_step(m: Seq<CVec<u32>>, n: int, i: int, f: spec_fn(Seq<u32>) -> Seq<u32>, p: Set<int>, j: int)
    requires 0 <= i < n, red(m, n, i, f, p), 0 <= j < m.len(), f(m[j]@)[i] == 1, forall|k: int| 0 <= k < j ==> f((#[trigger] m[k])@)[i] == 0
    ensures red(m, n, i + 1, compose(i, f(m[j]@), f), p.insert(j)), !p.contains(j)
{
    let q = f(m[j]@); let g = compose(i, q, f);
    assert(bin(m[j]@, n)); assert(bin(q, n));
    lem_compose(n, f, i, q);
    assert forall|k: int, c: int| 0 <= k < m.len() && 0 <= c < i + 1 implies #[trigger] g(m[k]@)[c] == 0 by {
        assert(bin(m[k]@, n)); let w = f(m[k]@); assert(bin(w, n));
        if c < i { assert(f(m[k]@)[c] == 0); assert(f(m[j]@)[c] == 0); }
    }
    if span(m, j, m[j]@) { lem_functional(m, n, f, i, j, m[j]@); }
    if p.contains(j) { assert(zeros(f(m[j]@))); assert(f(m[j]@)[i] == 0); }
    assert(span(m, j, vx(q, m[j]@)));
    assert(span(m, j + 1, q));
    assert forall|k: int| 0 <= k < m.len() && !p.insert(j).contains(k) implies #[trigger] span(m, k, vx(g(m[k]@), m[k]@)) by {
        let w = f(m[k]@); assert(bin(m[k]@, n)); assert(bin(w, n)); assert(span(m, k, vx(w, m[k]@)));
        if w[i] == 1 {
            assert(k > j) by { if k < j { assert(f((m[k])@)[i] == 0); } }
            lem_span_mono(m, j + 1, k, q); assert(bin(vx(w, m[k]@), n));
            lem_span_add(m, n, k, vx(w, m[k]@), q);
            assert(vx(vx(w, m[k]@), q) =~= vx(vx(w, q), m[k]@));
        }
    }
    assert forall|k: int| #[trigger] p.insert(j).contains(k) implies pivot(m, k) && zeros(g(m[k]@)) by {
        assert(bin(m[k]@, n)); let w = f(m[k]@); assert(bin(w, n));
        if k == j { assert(g(m[k]@) == vx(q, q)); } else { assert(p.contains(k)); assert(w[i] == 0); }
    }
}
pub proof fn lem_red_done(m: Seq<CVec<u32>>, n: int, f: spec_fn(Seq<u32>) -> Seq<u32>, p: Set<int>)
    requires red(m, n, n, f, p) ensures forall|k: int| 0 <= k < m.len() ==> (#[trigger] p.contains(k) <==> pivot(m, k))
{
    assert forall|k: int| 0 <= k < m.len() implies (#[trigger] p.contains(k) <==> pivot(m, k)) by {
        assert(bin(m[k]@, n)); assert(bin(f(m[k]@), n));
        if !p.contains(k) {
            assert(span(m, k, vx(f(m[k]@), m[k]@)));
            assert forall|c: int| 0 <= c < n implies #[trigger] f(m[k]@)[c] == 0 by {}
            assert(vx(f(m[k]@), m[k]@) =~= m[k]@);
        }
    }
}

pub open spec fn tracks(c: Seq<CVec<u32>>, m: Seq<CVec<u32>>, f: spec_fn(Seq<u32>) -> Seq<u32>) -> bool
{ c.len() == m.len() && forall|k: int| 0 <= k < m.len() ==> (#[trigger] c[k])@ == f(m[k]@) }
pub proof fn lem_tracks(c: Seq<CVec<u32>>, m: Seq<CVec<u32>>, n: int, i: int, f: spec_fn(Seq<u32>) -> Seq<u32>, p: Set<int>)
    requires tracks(c, m, f), red(m, n, i, f, p) ensures binm(c, n)
{ assert forall|k: int| 0 <= k < c.len() implies bin((#[trigger] c[k])@, n) by { assert(bin(m[k]@, n)); } }

// rows of the matrix still in work: i lists their positions in the original matrix, all others are pivots
pub open spec fn rest(c: Seq<CVec<u32>>, m: Seq<CVec<u32>>, f: spec_fn(Seq<u32>) -> Seq<u32>, p: Set<int>, i: Seq<int>) -> bool {
    &&& c.len() == i.len()
    &&& forall|k: int| 0 <= k < c.len() ==> (#[trigger] c[k])@ == f(m[i[k]]@)
    &&& forall|k: int| 0 <= k < i.len() ==> 0 <= #[trigger] i[k] < m.len() && !p.contains(i[k])
    &&& forall|a: int, b: int| #![trigger i[a], i[b]] 0 <= a < b < i.len() ==> i[a] < i[b]
    &&& forall|k: int| 0 <= k < m.len() ==> #[trigger] p.contains(k) || i.contains(k)
    &&& forall|k: int| #[trigger] p.contains(k) ==> 0 <= k < m.len()
    &&& p.finite() && p.len() + i.len() == m.len()
}
pub proof fn lem_rest(c: Seq<CVec<u32>>, m: Seq<CVec<u32>>, n: int, t: int, f: spec_fn(Seq<u32>) -> Seq<u32>, p: Set<int>, i: Seq<int>, j: int)
    requires rest(c, m, f, p, i), lin(f, n), binm(m, n) ensures binm(c, n)
{ assert forall|k: int| 0 <= k < c.len() implies bin((#[trigger] c[k])@, n) by { let q = i[k]; assert(bin(m[q]@, n)); } }
pub proof fn lem_before(c: Seq<CVec<u32>>, m: Seq<CVec<u32>>, n: int, t: int, f: spec_fn(Seq<u32>) -> Seq<u32>, p: Set<int>, i: Seq<int>, j: int, k: int)
    requires rest(c, m, f, p, i), red(m, n, t, f, p), 0 <= t < n, 0 <= j <= i.len(), 0 <= k < m.len(), j < i.len() ==> k < i[j], forall|a: int| 0 <= a < j ==> f((m[#[trigger] i[a]])@)[t] == 0
    ensures f(m[k]@)[t] == 0
{
    assert(bin(m[k]@, n)); assert(bin(f(m[k]@), n));
    if p.contains(k) { assert(zeros(f(m[k]@))); }
    else { assert(i.contains(k)); let a = choose|a: int| 0 <= a < i.len() && i[a] == k; if j < i.len() && a > j { assert(i[j] < i[a]); } assert(f((m[i[a]])@)[t] == 0); }
}
pub proof fn lem_rest_step(c: Seq<CVec<u32>>, c2: Seq<CVec<u32>>, m: Seq<CVec<u32>>, f: spec_fn(Seq<u32>) -> Seq<u32>, g: spec_fn(Seq<u32>) -> Seq<u32>, p: Set<int>, i: Seq<int>, j: int)
    requires rest(c, m, f, p, i), 0 <= j < i.len(), c2.len() == i.len() - 1, forall|k: int| 0 <= k < c2.len() ==> (#[trigger] c2[k])@ == g(m[i.remove(j)[k]]@)
    ensures rest(c2, m, g, p.insert(i[j]), i.remove(j))
{
    let h = i.remove(j); let q = p.insert(i[j]);
    assert(!p.contains(i[j]));
    assert forall|k: int| 0 <= k < h.len() implies 0 <= #[trigger] h[k] < m.len() && !q.contains(h[k]) by { let a = if k < j { k } else { k + 1 }; assert(h[k] == i[a]); if a < j { assert(i[a] < i[j]); } else { assert(i[j] < i[a]); } }
    assert forall|a: int, b: int| #![trigger h[a], h[b]] 0 <= a < b < h.len() implies h[a] < h[b] by { let x = if a < j { a } else { a + 1 }; let y = if b < j { b } else { b + 1 }; assert(h[a] == i[x] && h[b] == i[y]); }
    assert forall|k: int| 0 <= k < m.len() implies #[trigger] q.contains(k) || h.contains(k) by {
        if !q.contains(k) { assert(!p.contains(k)); assert(i.contains(k)); let a = choose|a: int| 0 <= a < i.len() && i[a] == k; assert(a != j); let b = if a < j { a } else { a - 1 }; assert(h[b] == k); }
    }
}
pub proof fn lem_rest_len(c: Seq<CVec<u32>>, m: Seq<CVec<u32>>, f: spec_fn(Seq<u32>) -> Seq<u32>, p: Set<int>, i: Seq<int>)
    requires rest(c, m, f, p, i) ensures p.len() + c.len() == m.len() {}
pub proof fn lem_rank(m: Seq<CVec<u32>>, p: Set<int>, k: int)
    requires 0 <= k <= m.len(), p.finite(), forall|a: int| #[trigger] p.contains(a) ==> 0 <= a < m.len(), forall|a: int| 0 <= a < m.len() ==> (#[trigger] p.contains(a) <==> pivot(m, a))
    ensures rank(m, k) == p.filter(|a: int| a < k).len(), k == m.len() ==> rank(m, k) == p.len() decreases k
{
    let g = p.filter(|a: int| a < k);
    if k > 0 {
        lem_rank(m, p, k - 1);
        let h = p.filter(|a: int| a < k - 1);
        if pivot(m, k - 1) { assert(p.contains(k - 1)); assert(g =~= h.insert(k - 1)); assert(!h.contains(k - 1)); } else { assert(!p.contains(k - 1)); assert(g =~= h); }
    } else { assert(g =~= Set::<int>::empty()); }
    if k == m.len() { assert(g =~= p); }
}
// ---------------------------------------------------------------- incidence matrices
pub open spec fn facem(n: Seq<CVec<u32>>, p: Seq<CVec<u32>>) -> Seq<CVec<u32>>
{ Seq::new(n.len(), |i: int| cvec_of(Seq::new(p.len(), |j: int| face_bit(n[i]@.to_set(), p[j]@.to_set()) as u32))) }
pub type SEntry = (CSet<u32>, F64);
pub open spec fn facem_s(p: Seq<SEntry>, n: Seq<SEntry>) -> Seq<CVec<u32>>
{ Seq::new(p.len(), |i: int| cvec_of(Seq::new(n.len(), |j: int| face_bit(n[j].0.s(), p[i].0.s()) as u32))) }
pub open spec fn below(e: Seq<CVec<SEntry>>, k: int) -> int decreases k { if k <= 0 { 0 } else { below(e, k - 1) + e[k - 1]@.len() } }
pub proof fn lem_below(e: Seq<CVec<SEntry>>, a: int, b: int) requires 0 <= a <= b ensures 0 <= below(e, a) <= below(e, b) decreases b
{ if b > 0 { if a < b { lem_below(e, a, b - 1); } else { lem_below(e, b - 1, b - 1); } } }
// the simplex number g (all levels counted in order) is a pivot of the boundary matrix of its level, level d or above
pub open spec fn is_pivot_simplex(e: Seq<CVec<SEntry>>, d: int, g: int) -> bool
{ exists|l: int| d <= l < e.len() && #[trigger] pivot(facem_s(e[l]@, e[l - 1]@), g - below(e, l)) }

pub proof fn lem_dupset(s: Seq<u32>) requires dupfree(s) ensures s.to_set().len() == s.len(), s.to_set().finite() { assert(s.no_duplicates()); s.unique_seq_to_set(); }
