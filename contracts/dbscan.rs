// ---------------------------------------------------------------- density clustering
#[verifier::opaque]
pub open spec fn near(d: Seq<CVec<F64>>, eps: real, i: int, j: int) -> bool { dist(d[i]@, d[j]@) <= eps }
pub open spec fn nset(d: Seq<CVec<F64>>, n: int, eps: real, p: int) -> Set<int> { vstd::set_lib::set_int_range(0, n).filter(|k: int| near(d, eps, k, p)) }
#[verifier::opaque]
/// a core point has at least mp indexed points (itself included) within the radius
pub open spec fn core(d: Seq<CVec<F64>>, n: int, eps: real, mp: int, p: int) -> bool { nset(d, n, eps, p).len() >= mp }
pub proof fn lem_core(d: Seq<CVec<F64>>, n: int, eps: real, mp: int, p: int) ensures core(d, n, eps, mp, p) == (nset(d, n, eps, p).len() >= mp) { reveal(core); }
pub proof fn lem_near(d: Seq<CVec<F64>>, eps: real, i: int, j: int) ensures near(d, eps, i, j) == (dist(d[i]@, d[j]@) <= eps) { reveal(near); }
/// an index list enumerates the neighbours
pub proof fn lem_list(r: Seq<usize>, d: Seq<CVec<F64>>, n: int, eps: real, p: int)
    requires index_list(r, d, n, d[p]@, eps), n <= MAXLEN
    ensures forall|j: int| 0 <= j < r.len() ==> (#[trigger] r[j]) < n && near(d, eps, r[j] as int, p), forall|y: int| 0 <= y < n && #[trigger] near(d, eps, y, p) ==> r.contains(y as usize)
{
    reveal(near);
    assert forall|y: int| 0 <= y < n && #[trigger] near(d, eps, y, p) implies r.contains(y as usize) by { assert(dist(d[y]@, d[p]@) <= eps); }
}
pub proof fn lem_sq_sym(a: Seq<F64>, b: Seq<F64>) requires a.len() == b.len() ensures sqdist(a, b) == sqdist(b, a) decreases a.len()
{
    if a.len() > 0 {
        lem_sq_take(a, b); lem_sq_take(b, a);
        lem_sq_sym(a.drop_last(), b.drop_last());
        let x = a.last()@; let y = b.last()@; assert((x - y) * (x - y) == (y - x) * (y - x)) by (nonlinear_arith);
    }
}
pub proof fn lem_sq_take(a: Seq<F64>, b: Seq<F64>) requires 0 < a.len() == b.len() ensures sqdist(a.drop_last(), b) == sqdist(a.drop_last(), b.drop_last())
{ lem_sq_ext(a.drop_last(), b, b.drop_last()); }
pub proof fn lem_sq_ext(a: Seq<F64>, b: Seq<F64>, c: Seq<F64>) requires a.len() <= b.len(), a.len() <= c.len(), forall|i: int| 0 <= i < a.len() ==> b[i] == c[i] ensures sqdist(a, b) == sqdist(a, c) decreases a.len()
{ if a.len() > 0 { lem_sq_ext(a.drop_last(), b, c); } }
pub proof fn lem_near_sym(d: Seq<CVec<F64>>, dim: int, eps: real, i: int, j: int) requires same_dim(d, dim), dim >= 1, 0 <= i < d.len(), 0 <= j < d.len() ensures near(d, eps, i, j) == near(d, eps, j, i)
{ reveal(near); assert(d[i]@.len() == dim && d[j]@.len() == dim); lem_sq_sym(d[i]@, d[j]@); }
pub proof fn lem_sq_self(a: Seq<F64>, b: Seq<F64>) requires a.len() <= b.len(), forall|i: int| 0 <= i < a.len() ==> a[i] == b[i] ensures sqdist(a, b) == 0real decreases a.len()
{ if a.len() > 0 { lem_sq_self(a.drop_last(), b); assert(a.last() == b[a.len() - 1]); } }
pub proof fn lem_near_self(d: Seq<CVec<F64>>, eps: real, i: int) requires eps >= 0real ensures near(d, eps, i, i)
{ reveal(near); lem_sq_self(d[i]@, d[i]@); let r = rsqrt(0real); assert(r == 0real) by (nonlinear_arith) requires r >= 0real, r * r == 0real; }
/// length of the query result
pub proof fn lem_nlen(r: Seq<usize>, d: Seq<CVec<F64>>, n: int, eps: real, p: int)
    requires index_list(r, d, n, d[p]@, eps), 0 <= n <= MAXLEN
    ensures r.len() == nset(d, n, eps, p).len()
{
    reveal(near);
    let s = r.map_values(|x: usize| x as int);
    assert(s.no_duplicates()) by { assert forall|i: int, j: int| 0 <= i < s.len() && 0 <= j < s.len() && i != j implies s[i] != s[j] by { if i < j { assert(r[i] != r[j]); } else { assert(r[j] != r[i]); } } }
    s.unique_seq_to_set();
    assert forall|k: int| s.to_set().contains(k) <==> #[trigger] nset(d, n, eps, p).contains(k) by {
        if s.to_set().contains(k) { let i = choose|i: int| 0 <= i < s.len() && s[i] == k; assert(r[i] == k); assert(near(d, eps, k, p)); }
        if nset(d, n, eps, p).contains(k) { assert(near(d, eps, k, p)); assert(dist(d[k]@, d[p]@) <= eps); assert(r.contains(k as usize)); let i = choose|i: int| 0 <= i < r.len() && r[i] == k as usize; assert(s[i] == k); }
    }
    assert(s.to_set() =~= nset(d, n, eps, p));
}
pub open spec fn zeros(l: Seq<i32>) -> nat decreases l.len() { if l.len() == 0 { 0 } else { zeros(l.drop_last()) + (if l.last() == 0 { 1nat } else { 0 }) } }
pub proof fn lem_zeros_upd(l: Seq<i32>, k: int, v: i32) requires 0 <= k < l.len(), v != 0 ensures zeros(l.update(k, v)) == zeros(l) - (if l[k] == 0 { 1int } else { 0 }) decreases l.len()
{
    let m = l.update(k, v);
    if k == l.len() - 1 { assert(m.drop_last() =~= l.drop_last()); }
    else { lem_zeros_upd(l.drop_last(), k, v); assert(m.drop_last() =~= l.drop_last().update(k, v)); }
}
/// what labels mean; `skip` names a cluster under construction (0: none)
pub open spec fn lab_a(l: Seq<i32>, d: Seq<CVec<F64>>, eps: real, mp: int, skip: int, s: int) -> bool {
    forall|x: int| 0 <= x < l.len() && (#[trigger] l[x]) > 0 ==> reach(l, d, eps, mp, skip, s, x)
}
#[verifier::opaque]
/// x lies near a core point of its own cluster (or near s, for the cluster under construction)
pub open spec fn reach(l: Seq<i32>, d: Seq<CVec<F64>>, eps: real, mp: int, skip: int, s: int, x: int) -> bool {
    exists|q: int| 0 <= q < l.len() && #[trigger] near(d, eps, q, x) && core(d, l.len() as int, eps, mp, q) && (l[q] == l[x] || (l[x] == skip && q == s))
}
pub open spec fn lab_b(l: Seq<i32>, d: Seq<CVec<F64>>, eps: real, mp: int, skip: int) -> bool {
    forall|q: int, y: int| 0 <= q < l.len() && 0 <= y < l.len() && l[q] > 0 && l[q] != skip && core(d, l.len() as int, eps, mp, q) && #[trigger] near(d, eps, y, q)
        ==> l[y] > 0 && (core(d, l.len() as int, eps, mp, y) ==> l[y] == l[q])
}
pub open spec fn lab_c(l: Seq<i32>, d: Seq<CVec<F64>>, eps: real, mp: int) -> bool {
    forall|x: int| 0 <= x < l.len() && (#[trigger] l[x]) < 0 ==> !core(d, l.len() as int, eps, mp, x)
}
pub open spec fn lab_r(l: Seq<i32>, c: int) -> bool { forall|x: int| 0 <= x < l.len() ==> -1 <= (#[trigger] l[x]) <= c }
pub open spec fn db_data(d: Seq<CVec<F64>>, n: int, dim: int) -> bool { same_dim(d, dim) && dim >= 1 && 0 <= n <= d.len() && n <= MAXLEN }
/// the definition of a density clustering
pub open spec fn db_result(l: Seq<i32>, d: Seq<CVec<F64>>, eps: real, mp: int) -> bool {
    let n = l.len() as int;
    &&& exists|k: int| #[trigger] lab_r(l, k) && k >= 0 && (forall|c: int| 1 <= c <= k ==> #[trigger] used(l, c))
    &&& forall|x: int| 0 <= x < n ==> (#[trigger] l[x]) != 0
    &&& forall|x: int| 0 <= x < n ==> ((#[trigger] l[x]) == -1) == !(exists|q: int| 0 <= q < n && #[trigger] near(d, eps, q, x) && core(d, n, eps, mp, q))
    &&& forall|x: int| 0 <= x < n && (#[trigger] l[x]) > 0 ==> exists|q: int| 0 <= q < n && #[trigger] near(d, eps, q, x) && core(d, n, eps, mp, q) && l[q] == l[x]
    &&& forall|p: int, q: int| 0 <= p < n && 0 <= q < n && core(d, n, eps, mp, p) && core(d, n, eps, mp, q) && #[trigger] near(d, eps, p, q) ==> l[p] == l[q]
}
pub open spec fn used(l: Seq<i32>, c: int) -> bool { exists|x: int| 0 <= x < l.len() && #[trigger] l[x] == c }
pub proof fn lem_db_final(l: Seq<i32>, d: Seq<CVec<F64>>, eps: real, mp: int, k: int, dim: int)
    requires lab_a(l, d, eps, mp, 0, 0), lab_b(l, d, eps, mp, 0), lab_c(l, d, eps, mp), lab_r(l, k), k >= 0, forall|c: int| 1 <= c <= k ==> #[trigger] used(l, c),
        forall|x: int| 0 <= x < l.len() ==> (#[trigger] l[x]) != 0, l.len() > 0 ==> db_data(d, l.len() as int, dim),
    ensures db_result(l, d, eps, mp)
{
    let n = l.len() as int;
    reveal(reach);
    assert forall|x: int| 0 <= x < n implies ((#[trigger] l[x]) == -1) == !(exists|q: int| 0 <= q < n && #[trigger] near(d, eps, q, x) && core(d, n, eps, mp, q)) by {
        assert(-1 <= l[x] <= k);
        if exists|q: int| 0 <= q < n && #[trigger] near(d, eps, q, x) && core(d, n, eps, mp, q) {
            let q = choose|q: int| 0 <= q < n && #[trigger] near(d, eps, q, x) && core(d, n, eps, mp, q);
            lem_near_sym(d, dim, eps, q, x);
            assert(l[q] != 0); assert(-1 <= l[q]); assert(l[q] > 0); assert(l[x] > 0);
        }
    }
    assert forall|p: int, q: int| 0 <= p < n && 0 <= q < n && core(d, n, eps, mp, p) && core(d, n, eps, mp, q) && #[trigger] near(d, eps, p, q) implies l[p] == l[q] by {
        assert(l[q] != 0 && l[q] >= -1); assert(l[q] > 0);
    }
}
/// s is an unlabelled core point and nb lists its neighbourhood
pub open spec fn src_of(nb: Seq<usize>, l: Seq<i32>, d: Seq<CVec<F64>>, eps: real, mp: int, s: int) -> bool {
    0 <= s < l.len() && l[s] == 0 && core(d, l.len() as int, eps, mp, s) && index_list(nb, d, l.len() as int, d[s]@, eps)
}
/// the work queue of a growing cluster
pub open spec fn q_from(nb: Seq<usize>, l: Seq<i32>, d: Seq<CVec<F64>>, eps: real, mp: int, c: int, s: int) -> bool {
    forall|j: int| 0 <= j < nb.len() ==> (#[trigger] nb[j]) < l.len() && exists|q: int| 0 <= q < l.len() && #[trigger] near(d, eps, q, nb[j] as int) && core(d, l.len() as int, eps, mp, q) && (l[q] == c || q == s)
}
pub open spec fn q_done(nb: Seq<usize>, l: Seq<i32>, i: int) -> bool { forall|j: int| 0 <= j < i ==> l[(#[trigger] nb[j]) as int] > 0 }
pub open spec fn q_closed(nb: Seq<usize>, l: Seq<i32>, d: Seq<CVec<F64>>, eps: real, mp: int, c: int, s: int) -> bool {
    forall|q: int, y: int| 0 <= q < l.len() && 0 <= y < l.len() && (l[q] == c || q == s) && core(d, l.len() as int, eps, mp, q) && #[trigger] near(d, eps, y, q) ==> nb.contains(y as usize)
}
/// everything the labels and the queue satisfy while cluster c grows from s
pub open spec fn db_inv(nb: Seq<usize>, l: Seq<i32>, d: Seq<CVec<F64>>, eps: real, mp: int, c: int, s: int, i: int) -> bool {
    &&& q_from(nb, l, d, eps, mp, c, s) && q_done(nb, l, i) && q_closed(nb, l, d, eps, mp, c, s)
    &&& lab_a(l, d, eps, mp, c, s) && lab_b(l, d, eps, mp, c) && lab_c(l, d, eps, mp) && lab_r(l, c)
}
pub proof fn lem_db_init(nb: Seq<usize>, l: Seq<i32>, d: Seq<CVec<F64>>, eps: real, mp: int, c: int, s: int, dim: int)
    requires same_dim(d, dim), dim >= 1, l.len() <= d.len(), src_of(nb, l, d, eps, mp, s), lab_a(l, d, eps, mp, 0, 0), lab_b(l, d, eps, mp, 0), lab_c(l, d, eps, mp), lab_r(l, c - 1), c >= 1, l.len() <= MAXLEN
    ensures db_inv(nb, l, d, eps, mp, c, s, 0)
{
    lem_list(nb, d, l.len() as int, eps, s);
    assert forall|j: int| 0 <= j < nb.len() implies (#[trigger] nb[j]) < l.len() && exists|q: int| 0 <= q < l.len() && #[trigger] near(d, eps, q, nb[j] as int) && core(d, l.len() as int, eps, mp, q) && (l[q] == c || q == s) by {
        assert(nb[j] < l.len()); assert(near(d, eps, nb[j] as int, s)); lem_near_sym(d, dim, eps, nb[j] as int, s);
        assert(near(d, eps, s, nb[j] as int));
    }
    assert forall|q: int, y: int| 0 <= q < l.len() && 0 <= y < l.len() && (l[q] == c || q == s) && core(d, l.len() as int, eps, mp, q) && #[trigger] near(d, eps, y, q) implies nb.contains(y as usize) by {
        assert(l[q] <= c - 1); assert(q == s);
    }
    assert(lab_a(l, d, eps, mp, c, s)) by {
        assert forall|x: int| 0 <= x < l.len() && (#[trigger] l[x]) > 0 implies reach(l, d, eps, mp, c, s, x) by {
            reveal(reach);
            let q = choose|q: int| 0 <= q < l.len() && #[trigger] near(d, eps, q, x) && core(d, l.len() as int, eps, mp, q) && (l[q] == l[x] || (l[x] == 0 && q == 0));
            assert(near(d, eps, q, x) && l[q] == l[x]);
        }
    }
}
/// a noise point or an unlabelled non-core point of the queue joins the cluster; nbq/pn: what a core point adds to the queue
pub proof fn lem_db_label(nb: Seq<usize>, l: Seq<i32>, d: Seq<CVec<F64>>, eps: real, mp: int, c: int, s: int, i: int, pn: Seq<usize>, nb2: Seq<usize>, dim: int)
    requires db_inv(nb, l, d, eps, mp, c, s, i), 0 <= i < nb.len(), l[nb[i] as int] <= 0, c >= 1, 0 <= s < l.len() <= MAXLEN, l.len() <= d.len(), same_dim(d, dim), dim >= 1, c <= 0x7fff_ffff,
        core(d, l.len() as int, eps, mp, nb[i] as int) ==> (nb2 == nb + pn && index_list(pn, d, l.len() as int, d[nb[i] as int]@, eps)),
        !core(d, l.len() as int, eps, mp, nb[i] as int) ==> nb2 == nb,
    ensures db_inv(nb2, l.update(nb[i] as int, c as i32), d, eps, mp, c, s, i + 1)
{
    let n = l.len() as int; let p = nb[i] as int; let m = l.update(p, c as i32);
    assert(p < n);
    if core(d, n, eps, mp, p) { lem_list(pn, d, n, eps, p); }
    assert(forall|j: int| 0 <= j < nb.len() ==> nb2[j] == nb[j]);
    assert(forall|y: usize| nb.contains(y) ==> nb2.contains(y)) by { assert forall|y: usize| nb.contains(y) implies nb2.contains(y) by { let k = choose|k: int| 0 <= k < nb.len() && nb[k] == y; assert(nb2[k] == y); } }
    assert(q_from(nb2, m, d, eps, mp, c, s)) by {
        assert forall|j: int| 0 <= j < nb2.len() implies (#[trigger] nb2[j]) < n && exists|q: int| 0 <= q < n && #[trigger] near(d, eps, q, nb2[j] as int) && core(d, n, eps, mp, q) && (m[q] == c || q == s) by {
            if j < nb.len() {
                assert(nb[j] < n);
                let q = choose|q: int| 0 <= q < n && #[trigger] near(d, eps, q, nb[j] as int) && core(d, n, eps, mp, q) && (l[q] == c || q == s);
                assert(near(d, eps, q, nb2[j] as int) && (m[q] == c || q == s));
            } else {
                let y = pn[j - nb.len()]; assert(nb2[j] == y); assert(y < n); assert(near(d, eps, y as int, p)); lem_near_sym(d, dim, eps, y as int, p); assert(near(d, eps, p, nb2[j] as int)); assert(m[p] == c);
            }
        }
    }
    assert(q_done(nb2, m, i + 1)) by { assert forall|j: int| 0 <= j < i + 1 implies m[(#[trigger] nb2[j]) as int] > 0 by { assert(nb[j] < n); if j < i { assert(l[nb[j] as int] > 0); } } }
    assert(q_closed(nb2, m, d, eps, mp, c, s)) by {
        assert forall|q: int, y: int| 0 <= q < n && 0 <= y < n && (m[q] == c || q == s) && core(d, n, eps, mp, q) && #[trigger] near(d, eps, y, q) implies nb2.contains(y as usize) by {
            if q == p {
                assert(pn.contains(y as usize)); let k = choose|k: int| 0 <= k < pn.len() && pn[k] == y as usize; assert(nb2[nb.len() + k] == y as usize);
            } else { assert(nb.contains(y as usize)); }
        }
    }
    assert(lab_a(m, d, eps, mp, c, s)) by {
        assert forall|x: int| 0 <= x < n && (#[trigger] m[x]) > 0 implies reach(m, d, eps, mp, c, s, x) by {
            reveal(reach);
            if x == p {
                let q = choose|q: int| 0 <= q < n && #[trigger] near(d, eps, q, nb[i] as int) && core(d, n, eps, mp, q) && (l[q] == c || q == s);
                assert(near(d, eps, q, x));
            } else {
                assert(l[x] > 0);
                let q = choose|q: int| 0 <= q < n && #[trigger] near(d, eps, q, x) && core(d, n, eps, mp, q) && (l[q] == l[x] || (l[x] == c && q == s));
                assert(near(d, eps, q, x));
            }
        }
    }
    assert(lab_b(m, d, eps, mp, c)) by {
        assert forall|q: int, y: int| 0 <= q < n && 0 <= y < n && m[q] > 0 && m[q] != c && core(d, n, eps, mp, q) && #[trigger] near(d, eps, y, q) implies m[y] > 0 && (core(d, n, eps, mp, y) ==> m[y] == m[q]) by {
            assert(l[q] == m[q]); assert(l[y] > 0); assert(y != p);
        }
    }
}
pub proof fn lem_db_end(nb: Seq<usize>, l: Seq<i32>, d: Seq<CVec<F64>>, eps: real, mp: int, c: int, s: int, dim: int)
    requires db_inv(nb, l, d, eps, mp, c, s, nb.len() as int), l[s] == c, core(d, l.len() as int, eps, mp, s), 0 <= s < l.len() <= MAXLEN, l.len() <= d.len(), same_dim(d, dim), dim >= 1, c >= 1
    ensures lab_a(l, d, eps, mp, 0, 0), lab_b(l, d, eps, mp, 0)
{
    let n = l.len() as int;
    assert forall|x: int| 0 <= x < n && (#[trigger] l[x]) > 0 implies reach(l, d, eps, mp, 0, 0, x) by {
            reveal(reach);
        let q = choose|q: int| 0 <= q < n && #[trigger] near(d, eps, q, x) && core(d, n, eps, mp, q) && (l[q] == l[x] || (l[x] == c && q == s));
        assert(near(d, eps, q, x) && l[q] == l[x]);
    }
    assert forall|q: int, y: int| 0 <= q < n && 0 <= y < n && l[q] > 0 && l[q] != 0 && core(d, n, eps, mp, q) && #[trigger] near(d, eps, y, q) implies l[y] > 0 && (core(d, n, eps, mp, y) ==> l[y] == l[q]) by {
        if l[q] == c {
            assert(nb.contains(y as usize)); let k = choose|k: int| 0 <= k < nb.len() && nb[k] == y as usize; assert(l[nb[k] as int] > 0);
            if core(d, n, eps, mp, y) && l[y] != c { lem_near_sym(d, dim, eps, y, q); assert(near(d, eps, q, y)); assert(l[q] == l[y]); }
        }
    }
}
