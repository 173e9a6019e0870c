// spec functions and proved lemmas shared by all contracts
pub open spec fn symdiff<T>(a: Set<T>, b: Set<T>) -> Set<T> { a.difference(b).union(b.difference(a)) }
pub proof fn lem_lt_dupfree(s: Seq<u32>) requires sorted_lt(s) ensures dupfree(s), sorted_le(s)
{ assert forall|i:int,j:int| #![trigger s[i], s[j]] 0<=i<j<s.len() implies s[i] != s[j] && !cless(s[j],s[i]) by { assert(cless(s[i],s[j])); } }
pub proof fn lem_set_sorted(a: CSet<u32>) ensures sorted_lt(a@), sorted_le(a@), dupfree(a@), a@.to_set() =~= a.s()
{ lem_lt_dupfree(a@); }
pub proof fn lem_sorted_dupfree_u32(s: Seq<u32>) ensures sorted_le(s) && dupfree(s) ==> sorted_lt(s), sorted_lt(s) ==> sorted_le(s) && dupfree(s)
{
    if sorted_lt(s) { lem_lt_dupfree(s); }
    if sorted_le(s) && dupfree(s) {
        assert forall|i:int,j:int| #![trigger s[i], s[j]] 0<=i<j<s.len() implies cless(s[i],s[j]) by { assert(!cless(s[j],s[i])); assert(s[i]!=s[j]); }
    }
}
pub proof fn lem_sorted_set_len(s: Seq<u32>) requires sorted_lt(s) ensures s.to_set().len() == s.len()
{ lem_lt_dupfree(s); assert(s.no_duplicates()); s.unique_seq_to_set(); }

// ---------------------------------------------------------------- subset enumeration
pub open spec fn enumerates(v: Seq<CSet<u32>>, s: Set<u32>) -> bool {
    &&& dupfree(v)
    &&& forall|k: int| 0 <= k < v.len() ==> (#[trigger] v[k]).s().subset_of(s)
    &&& forall|t: Set<u32>| #[trigger] t.subset_of(s) ==> v.contains(cset_of(t))
}
pub proof fn lem_enum_step(v: Seq<CSet<u32>>, w: Seq<CSet<u32>>, s: Set<u32>, x: u32)
    requires enumerates(v, s), !s.contains(x), w.len() == v.len(), forall|k: int| 0 <= k < w.len() ==> (#[trigger] w[k]).s() == v[k].s().insert(x),
    ensures enumerates(v + w, s.insert(x)),
{
    let r = v + w;
    let n = v.len() as int;
    assert forall|i: int, j: int| #![trigger r[i], r[j]] 0 <= i < j < r.len() implies r[i] != r[j] by {
        if j < n { assert(v[i] != v[j]); }
        else if i >= n {
            assert(r[i] == w[i-n] && r[j] == w[j-n]);
            assert(v[i-n].s().subset_of(s) && v[j-n].s().subset_of(s));
            if r[i] == r[j] { assert(v[i-n].s() =~= w[i-n].s().remove(x)); assert(v[j-n].s() =~= w[j-n].s().remove(x)); assert(v[i-n] == v[j-n]); }
        } else {
            assert(r[i] == v[i] && r[j] == w[j-n]); assert(v[i].s().subset_of(s)); assert(w[j-n].s().contains(x));
        }
    }
    assert forall|k: int| 0 <= k < r.len() implies (#[trigger] r[k]).s().subset_of(s.insert(x)) by {
        if k < n { assert(v[k].s().subset_of(s)); } else { assert(v[k-n].s().subset_of(s)); assert(r[k] == w[k-n]); }
    }
    assert forall|t: Set<u32>| #[trigger] t.subset_of(s.insert(x)) implies r.contains(cset_of(t)) by {
        if t.contains(x) {
            let t2 = t.remove(x);
            assert(t2.subset_of(s));
            let k = choose|k: int| 0 <= k < v.len() && v[k] == cset_of(t2);
            assert(w[k].s() =~= t);
            assert(r[n+k] == cset_of(t));
        } else {
            assert(t.subset_of(s));
            let k = choose|k: int| 0 <= k < v.len() && v[k] == cset_of(t);
            assert(r[k] == cset_of(t));
        }
    }
}
pub open spec fn with_size(v: Seq<CSet<u32>>, d: int) -> Seq<CSet<u32>> { v.filter(|z: CSet<u32>| z.s().len() == d) }
pub proof fn lem_filter_step(v: Seq<CSet<u32>>, i: int, d: int)
    requires 0 <= i < v.len()
    ensures with_size(v.take(i+1), d) == (if v[i].s().len() == d { with_size(v.take(i), d).push(v[i]) } else { with_size(v.take(i), d) })
{
    let f = |z: CSet<u32>| z.s().len() == d;
    assert(v.take(i+1).drop_last() =~= v.take(i));
    assert(v.take(i+1).last() == v[i]);
    reveal(Seq::filter);
}
pub proof fn lem_filter_dupfree<T>(v: Seq<T>, f: spec_fn(T) -> bool)
    requires dupfree(v) ensures dupfree(v.filter(f)), forall|x: T| #[trigger] v.filter(f).contains(x) <==> v.contains(x) && f(x)
    decreases v.len()
{
    reveal(Seq::filter);
    if v.len() > 0 {
        let w = v.drop_last(); let r = v.filter(f); let q = w.filter(f);
        lem_filter_dupfree(w, f);
        assert(v =~= w.push(v.last()));
        assert(f(v.last()) ==> r == q.push(v.last()));
        assert(!f(v.last()) ==> r == q);
        assert forall|x: T| #[trigger] r.contains(x) <==> v.contains(x) && f(x) by {
            if v.contains(x) && f(x) { 
                if x == v.last() { assert(r[q.len() as int] == x); } 
                else { let k = choose|k: int| 0 <= k < v.len() && v[k] == x; assert(w[k] == x); assert(q.contains(x)); let m = choose|m: int| 0 <= m < q.len() && q[m] == x; assert(r[m] == x); } }
            if r.contains(x) { let k = choose|k: int| 0 <= k < r.len() && r[k] == x;
                if k < q.len() { assert(q[k] == x); assert(q.contains(x)); let m = choose|m: int| 0 <= m < w.len() && w[m] == x; assert(v[m] == x); } else { assert(x == v.last()); assert(v[v.len()-1] == x); } }
        }
        assert forall|i:int,j:int| #![trigger r[i], r[j]] 0<=i<j<r.len() implies r[i] != r[j] by {
            if j < q.len() { assert(q[i] != q[j]); }
            else { assert(r[j] == v.last()); assert(q.contains(q[i])); let m = choose|m: int| 0 <= m < w.len() && w[m] == q[i]; assert(v[m] == r[i]); assert(v[m] != v[v.len()-1]); }
        }
    }
}
pub proof fn lem_enum_final(v: Seq<CSet<u32>>, s: Set<u32>, d: int)
    requires enumerates(v, s)
    ensures dupfree(with_size(v, d)), forall|t: CSet<u32>| #[trigger] with_size(v, d).contains(t) <==> t.s().subset_of(s) && t.s().len() == d
{
    lem_filter_dupfree(v, |z: CSet<u32>| z.s().len() == d);
    assert forall|t: CSet<u32>| #[trigger] with_size(v, d).contains(t) <==> t.s().subset_of(s) && t.s().len() == d by {
        if t.s().subset_of(s) { assert(v.contains(cset_of(t.s()))); assert(cset_of(t.s()) == t); }
        if v.contains(t) { let k = choose|k: int| 0 <= k < v.len() && v[k] == t; assert(v[k].s().subset_of(s)); }
    }
}
// subsequences of a vector
pub open spec fn subseq_of(t: Seq<u32>, s: Seq<u32>) -> bool decreases s.len() {
    if s.len() == 0 { t.len() == 0 } else { subseq_of(t, s.drop_last()) || (t.len() > 0 && t.last() == s.last() && subseq_of(t.drop_last(), s.drop_last())) }
}
pub open spec fn venumerates(v: Seq<CVec<u32>>, s: Seq<u32>) -> bool {
    dupfree(v) && (forall|t: Seq<u32>| #[trigger] subseq_of(t, s) <==> v.contains(cvec_of(t)))
}
pub proof fn lem_subseq_contains(t: Seq<u32>, s: Seq<u32>, x: u32) requires subseq_of(t, s), t.contains(x) ensures s.contains(x) decreases s.len()
{
    if s.len() > 0 {
        let s1 = s.drop_last();
        if subseq_of(t, s1) { lem_subseq_contains(t, s1, x); let k = choose|k: int| 0 <= k < s1.len() && s1[k] == x; assert(s[k] == x); }
        else if x != t.last() {
            let k = choose|k: int| 0 <= k < t.len() && t[k] == x; assert(t.drop_last()[k] == x);
            lem_subseq_contains(t.drop_last(), s1, x); let k2 = choose|k: int| 0 <= k < s1.len() && s1[k] == x; assert(s[k2] == x);
        } else { assert(s[s.len()-1] == x); }
    }
}
pub proof fn lem_venum_step(v: Seq<CVec<u32>>, w: Seq<CVec<u32>>, s: Seq<u32>, x: u32)
    requires venumerates(v, s), !s.contains(x), w.len() == v.len(), forall|k: int| 0 <= k < w.len() ==> (#[trigger] w[k])@ == v[k]@.push(x),
    ensures venumerates(v + w, s.push(x)),
{
    let r = v + w; let n = v.len() as int; let s2 = s.push(x);
    assert(s2.drop_last() =~= s);
    assert forall|k: int| 0 <= k < n implies subseq_of((#[trigger] v[k])@, s) by { assert(v.contains(v[k])); assert(cvec_of(v[k]@) == v[k]); }
    assert forall|i: int, j: int| #![trigger r[i], r[j]] 0 <= i < j < r.len() implies r[i] != r[j] by {
        if j < n { assert(v[i] != v[j]); }
        else if i >= n {
            assert(r[i] == w[i-n] && r[j] == w[j-n]);
            if r[i] == r[j] { assert(v[i-n]@ =~= w[i-n]@.drop_last()); assert(v[j-n]@ =~= w[j-n]@.drop_last()); assert(cvec_of(v[i-n]@) == v[i-n]); assert(v[i-n] == v[j-n]); }
        } else {
            assert(r[i] == v[i] && r[j] == w[j-n]);
            assert(w[j-n]@.last() == x && w[j-n]@.len() > 0);
            if r[i] == r[j] { assert(v[i]@[v[i]@.len()-1] == x); assert(v[i]@.contains(x)); lem_subseq_contains(v[i]@, s, x); }
        }
    }
    assert forall|t: Seq<u32>| #[trigger] subseq_of(t, s2) <==> r.contains(cvec_of(t)) by {
        if subseq_of(t, s2) {
            if subseq_of(t, s) { assert(v.contains(cvec_of(t))); let k = choose|k: int| 0 <= k < v.len() && v[k] == cvec_of(t); assert(r[k] == cvec_of(t)); }
            else {
                let t2 = t.drop_last();
                assert(subseq_of(t2, s)); assert(v.contains(cvec_of(t2)));
                let k = choose|k: int| 0 <= k < v.len() && v[k] == cvec_of(t2);
                assert(w[k]@ =~= t); assert(cvec_of(w[k]@) == w[k]); assert(r[n+k] == cvec_of(t));
            }
        }
        if r.contains(cvec_of(t)) {
            let k = choose|k: int| 0 <= k < r.len() && r[k] == cvec_of(t);
            if k < n { assert(v.contains(cvec_of(t))); assert(subseq_of(t, s)); }
            else { assert(w[k-n] == cvec_of(t)); assert(t == v[k-n]@.push(x)); assert(t.drop_last() =~= v[k-n]@); assert(subseq_of(v[k-n]@, s)); }
        }
    }
}
pub proof fn lem_venum_final(v: Seq<CVec<u32>>, s: Seq<u32>, f: spec_fn(CVec<u32>) -> bool)
    requires venumerates(v, s)
    ensures dupfree(v.filter(f)), forall|t: CVec<u32>| #[trigger] v.filter(f).contains(t) <==> subseq_of(t@, s) && f(t)
{
    lem_filter_dupfree(v, f);
    assert forall|t: CVec<u32>| #[trigger] v.filter(f).contains(t) <==> subseq_of(t@, s) && f(t) by { assert(cvec_of(t@) == t); }
}
// ---------------------------------------------------------------- distances
pub open spec fn sqdist(a: Seq<F64>, b: Seq<F64>) -> real decreases a.len()
{ if a.len() == 0 { 0real } else { sqdist(a.drop_last(), b) + (a.last()@ - b[a.len()-1]@) * (a.last()@ - b[a.len()-1]@) } }
/// Euclidean distance; a point without coordinates is at distance zero from everything
pub open spec fn dist(a: Seq<F64>, b: Seq<F64>) -> real { if b.len() == 0 { 0real } else { rsqrt(sqdist(a, b)) } }
pub open spec fn same_dim(v: Seq<CVec<F64>>, d: int) -> bool { forall|i: int| 0 <= i < v.len() ==> (#[trigger] v[i])@.len() == d }
pub proof fn lem_rsum_push(s: Seq<F64>, z: real, x: F64) ensures rsum(s.push(x), z) == rsum(s, z) + x@
{ assert(s.push(x).drop_last() =~= s); }
pub proof fn lem_sqdist_nonneg(a: Seq<F64>, b: Seq<F64>) ensures sqdist(a, b) >= 0real decreases a.len()
{ if a.len() > 0 { lem_sqdist_nonneg(a.drop_last(), b); let d = a.last()@ - b[a.len()-1]@; assert(d * d >= 0real) by (nonlinear_arith); } }
pub proof fn lem_dist_nonneg(a: Seq<F64>, b: Seq<F64>) ensures dist(a, b) >= 0real { lem_sqdist_nonneg(a, b); }
pub proof fn lem_enum_init(v: Seq<CSet<u32>>, set: CSet<u32>)
    requires v.len() == 1, v[0].s() == Set::<u32>::empty() ensures enumerates(v, set@.take(0).to_set())
{
    let e = set@.take(0).to_set();
    assert(e =~= Set::<u32>::empty());
    assert forall|t: Set<u32>| #[trigger] t.subset_of(e) implies v.contains(cset_of(t)) by { assert(t =~= e); assert(cset_of(t) == v[0]); }
}
pub proof fn lem_venum_init(v: Seq<CVec<u32>>, s: Seq<u32>)
    requires v.len() == 1, v[0]@.len() == 0 ensures venumerates(v, s.take(0))
{
    let e = s.take(0);
    assert forall|t: Seq<u32>| #[trigger] subseq_of(t, e) <==> v.contains(cvec_of(t)) by {
        if t.len() == 0 { assert(t =~= v[0]@); assert(cvec_of(v[0]@) == v[0]); assert(v[0] == cvec_of(t)); }
        if v.contains(cvec_of(t)) { assert(v[0] == cvec_of(t)); assert(v[0]@ == t); }
    }
}
pub proof fn lem_take_step(s: Seq<u32>, i: int) requires 0 <= i < s.len(), dupfree(s)
    ensures !s.take(i).to_set().contains(s[i]), s.take(i+1).to_set() == s.take(i).to_set().insert(s[i])
{
    assert(s.take(i+1) =~= s.take(i).push(s[i]));
    let p = s.take(i); let q = s.take(i+1);
    assert forall|x: u32| q.contains(x) <==> p.contains(x) || x == s[i] by {
        if p.contains(x) { let k = choose|k: int| 0 <= k < i && p[k] == x; assert(q[k] == x); }
        assert(q[i] == s[i]);
        if q.contains(x) { let k = choose|k: int| 0 <= k < i+1 && q[k] == x; if k < i { assert(p[k] == x); } }
    }
    assert forall|x: u32| q.to_set().contains(x) <==> p.to_set().insert(s[i]).contains(x) by { assert(q.contains(x) <==> p.contains(x) || x == s[i]); }
    assert(q.to_set() =~= p.to_set().insert(s[i]));
    if s.take(i).contains(s[i]) { let k = choose|k: int| 0 <= k < i && s.take(i)[k] == s[i]; assert(s[k] != s[i]); }
}
