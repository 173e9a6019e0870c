// ---------------------------------------------------------------- the listing of the simplex tree is a filtration
pub proof fn lem_simplex_remove(g: Geo, m: int, x: Seq<u32>, q: int) requires simplex(g, m, x), x.len() >= 2, 0 <= q < x.len(), forall|a: u32, b: u32| g.o <= a < m && g.o <= b < m ==> #[trigger] tdist(g, a, b) >= 0real
    ensures simplex(g, m, x.remove(q)), forall|z: u32| #[trigger] x.remove(q).contains(z) <==> x.contains(z) && z != x[q]
{
    let u = x.remove(q); lem_remove_has(x, q);
    assert forall|i: int| 0 <= i < u.len() implies g.o <= #[trigger] u[i] < m by { if i < q { assert(u[i] == x[i]); } else { assert(u[i] == x[i + 1]); } }
    if u.len() > 1 {
        lem_wt_nonneg(g, x); assert(g.eps > 0real); lem_wt_pairs(g, x, g.eps);
        assert forall|i: int, j: int| #![trigger u[i], u[j]] 0 <= i < j < u.len() implies tdist(g, u[i], u[j]) < g.eps by { let a = if i < q { i } else { i + 1 }; let b = if j < q { j } else { j + 1 }; assert(u[i] == x[a] && u[j] == x[b]); }
        lem_wt_pairs(g, u, g.eps);
    }
}
pub proof fn lem_tree_filtered(t: SimplexTree)
    requires tree(t), forall|k: int| 0 <= k < t.weightEdgeGraph@.len() ==> sorted_wt(#[trigger] t.weightEdgeGraph@[k]@) ensures filtered(t.weightEdgeGraph@)
{
    reveal(rep);
    let g = geo(t, base(t)); let w = t.weightEdgeGraph@; let d = t.heap.at@.dom(); let m = t.runningVectorCount as int;
    assert forall|k: int| 0 <= k < w.len() implies flevel_ok(#[trigger] lv(w, k), k) by {
        let l = w[k]@;
        assert(dupfree(w[k]@));
        assert forall|i: int| 0 <= i < l.len() implies (#[trigger] vx_(l, i)).len() == k + 1 by { assert(listed(g, d, k + 1, w[k]@[i])); let x = choose|x: Seq<u32>| #[trigger] d.contains(x) && x.len() == k + 1 && l[i] == ent(g, x); assert(simplex(g, m, x)); lem_sorted_set_len(x); }
        assert forall|i: int, j: int| 0 <= i < j < l.len() implies #[trigger] vx_(l, i) != #[trigger] vx_(l, j) by {
            if vx_(l, i) == vx_(l, j) {
                assert(listed(g, d, k + 1, w[k]@[i])); let x = choose|x: Seq<u32>| #[trigger] d.contains(x) && x.len() == k + 1 && l[i] == ent(g, x); assert(simplex(g, m, x));
                assert(listed(g, d, k + 1, w[k]@[j])); let y = choose|y: Seq<u32>| #[trigger] d.contains(y) && y.len() == k + 1 && l[j] == ent(g, y); assert(simplex(g, m, y));
                assert(ent(g, x).0 == ent(g, y).0) by { assert(ent(g, x).0.s() == x.to_set()); assert(ent(g, y).0.s() == y.to_set()); }
                lem_ent_inj(g, x, y); assert(l[i] == l[j]);
            }
        }
        assert(sorted_wt(w[k]@));
    }
    assert forall|k: int| 1 <= k < w.len() implies faces_ok(#[trigger] lv(w, k), lv(w, k - 1)) by {
        let l = w[k]@; let l0 = w[k - 1]@;
        assert forall|i: int, z: u32| 0 <= i < l.len() && vx_(l, i).contains(z) implies in_level(l0, #[trigger] vx_(l, i).remove(z)) by {
            assert(listed(g, d, k + 1, w[k]@[i])); let x = choose|x: Seq<u32>| #[trigger] d.contains(x) && x.len() == k + 1 && l[i] == ent(g, x); assert(simplex(g, m, x));
            assert(vx_(l, i) == x.to_set()); assert(x.contains(z)); let q = choose|q: int| 0 <= q < x.len() && x[q] == z;
            assert forall|a: u32, b: u32| g.o <= a < m && g.o <= b < m implies #[trigger] tdist(g, a, b) >= 0real by { assert(t.distMatrix@[a - g.o]@.len() == t.distMatrix@.len()); assert(t.distMatrix@[a - g.o]@[b - g.o]@ >= 0real); }
            lem_simplex_remove(g, m, x, q); let u = x.remove(q);
            assert(d.contains(u)); let j = choose|j: int| 0 <= j < l0.len() && l0[j] == ent(g, u);
            assert(vx_(l0, j) == u.to_set());
            assert(u.to_set() =~= vx_(l, i).remove(z)) by { assert forall|y: u32| u.to_set().contains(y) <==> vx_(l, i).remove(z).contains(y) by { assert(u.to_set().contains(y) <==> u.contains(y)); assert(x.to_set().contains(y) <==> x.contains(y)); } }
        }
    }
}
/// what the persistence stage assumes of simplexBase::getAllEdges, from the contract of the tree's override
pub fn tree_listing_is_filtration(this: &mut SimplexTree, epsilon: F64) -> (ret: CVec<CVec<SE>>)
    requires tree(*old(this))
    ensures filtered(ret@)
{
    let ret = st_all_edges(this, epsilon);
    proof { lem_tree_filtered(*this); }
    ret
}
