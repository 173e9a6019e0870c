// ---------------------------------------------------------------- persistent homology over the two-element field
// A chain of d-simplices is a set of indices into the level; r is the level of the faces, c the level of the cofaces.
pub open spec fn sx(a: Set<u32>, b: Set<u32>) -> Set<u32> { symdiff(a, b) }
pub open spec fn bdk(r: Seq<SE>, t: Set<u32>, k: int) -> Set<u32> decreases k
{ if k <= 0 { Set::<u32>::empty() } else if vx_(r, k - 1).subset_of(t) { bdk(r, t, k - 1).insert((k - 1) as u32) } else { bdk(r, t, k - 1) } }
/// boundary of simplex j: its faces
pub open spec fn bd(r: Seq<SE>, c: Seq<SE>, j: int) -> Set<u32> { bdk(r, vx_(c, j), r.len() as int) }
/// x is a sum of boundaries of the first k simplices
pub open spec fn spn(r: Seq<SE>, c: Seq<SE>, k: int, x: Set<u32>) -> bool decreases k
{ if k <= 0 { x == Set::<u32>::empty() } else { spn(r, c, k - 1, x) || spn(r, c, k - 1, sx(x, bd(r, c, k - 1))) } }
/// simplex j fills a class: its boundary is not a boundary before j
pub open spec fn fills(r: Seq<SE>, c: Seq<SE>, j: int) -> bool { !spn(r, c, j, bd(r, c, j)) }
pub open spec fn is_top(x: Set<u32>, p: u32) -> bool { x.contains(p) && forall|y: u32| #[trigger] x.contains(y) ==> y <= p }
/// x is homologous to the boundary of j before j
pub open spec fn homol(r: Seq<SE>, c: Seq<SE>, j: int, x: Set<u32>) -> bool { spn(r, c, j, sx(x, bd(r, c, j))) }
/// simplex i creates the class that j fills: it is the youngest simplex of a cycle homologous to the boundary of j, and no homologous cycle is made of older simplices only
pub open spec fn pair_(r: Seq<SE>, c: Seq<SE>, i: u32, j: int) -> bool {
    &&& fills(r, c, j)
    &&& exists|x: Set<u32>| #[trigger] homol(r, c, j, x) && is_top(x, i)
    &&& forall|y: Set<u32>| #[trigger] homol(r, c, j, y) ==> exists|z: u32| y.contains(z) && z >= i
}
pub open spec fn creator(r: Seq<SE>, c: Seq<SE>, j: int) -> u32 { choose|i: u32| pair_(r, c, i, j) }
pub open spec fn fl(r: Seq<SE>, c: Seq<SE>, k: int) -> Seq<u32> decreases k
{ if k <= 0 { Seq::<u32>::empty() } else if fills(r, c, k - 1) { fl(r, c, k - 1).push((k - 1) as u32) } else { fl(r, c, k - 1) } }
/// intervals of nonzero length of one dimension, by the first k filling simplices
pub open spec fn bars(r: Seq<SE>, c: Seq<SE>, d: int, k: int) -> Seq<Bar> decreases k {
    if k <= 0 { Seq::<Bar>::empty() } else {
        let b = r[creator(r, c, k - 1) as int].1@; let e = c[k - 1].1@;
        if fills(r, c, k - 1) && b != e { bars(r, c, d, k - 1).push(Bar { d: d, b: b, e: e }) } else { bars(r, c, d, k - 1) }
    }
}
pub open spec fn dbars(l: Seq<CVec<SE>>, d: int) -> Seq<Bar> { bars(lv(l, d), lv(l, d + 1), d, lv(l, d + 1).len() as int) }
/// intervals of dimension 1 to d
pub open spec fn allbars(l: Seq<CVec<SE>>, d: int) -> Seq<Bar> decreases d { if d <= 0 { Seq::<Bar>::empty() } else { allbars(l, d - 1) + dbars(l, d) } }
pub open spec fn hbars(l: Seq<CVec<SE>>, dim: int) -> Seq<Bar> { allbars(l, (if dim < l.len() - 1 { dim } else { l.len() - 1 }) - 1) }
#[verifier::opaque]
pub open spec fn table_is(t0: Seq<BettiBoundaryTableEntry>, t: Seq<BettiBoundaryTableEntry>, h: Seq<Bar>) -> bool {
    &&& t.len() >= t0.len() + h.len()
    &&& forall|i: int| 0 <= i < t.len() - h.len() ==> if i < t0.len() { #[trigger] t[i] == t0[i] } else { t[i].bettiDim == 0 }
    &&& forall|i: int| 0 <= i < h.len() ==> h[i].d == (#[trigger] t[t.len() - h.len() + i]).bettiDim && h[i].b == t[t.len() - h.len() + i].birth@ && h[i].e == t[t.len() - h.len() + i].death@
}
pub open spec fn small(l: Seq<CVec<SE>>, d: int) -> bool { lv(l, d - 1).len() < 0x8000_0000 && lv(l, d).len() < 0x8000_0000 && lv(l, d + 1).len() < 0x8000_0000 }
/// the rows that stage d may skip
pub open spec fn skips(l: Seq<CVec<SE>>, d: int) -> Seq<u32> { if d <= 1 { ji(lv(l, 1), lv(l, 1).len() as int) } else { fl(lv(l, d - 1), lv(l, d), lv(l, d).len() as int) } }

pub proof fn lem_pair_unique(r: Seq<SE>, c: Seq<SE>, i: u32, j: int) requires pair_(r, c, i, j) ensures creator(r, c, j) == i
{
    let h = creator(r, c, j);
    assert(pair_(r, c, h, j));
    let x = choose|x: Set<u32>| #[trigger] homol(r, c, j, x) && is_top(x, i);
    let y = choose|y: Set<u32>| #[trigger] homol(r, c, j, y) && is_top(y, h);
    let z = choose|z: u32| x.contains(z) && z >= h;
    let w = choose|w: u32| y.contains(w) && w >= i;
}
pub proof fn lem_bdk(r: Seq<SE>, t: Set<u32>, k: int) requires 0 <= k <= r.len(), r.len() < 0x8000_0000
    ensures forall|x: u32| #[trigger] bdk(r, t, k).contains(x) <==> x < k && vx_(r, x as int).subset_of(t)
    decreases k
{
    if k > 0 {
        lem_bdk(r, t, k - 1);
        assert forall|x: u32| #[trigger] bdk(r, t, k).contains(x) <==> x < k && vx_(r, x as int).subset_of(t) by {
            assert(bdk(r, t, k - 1).contains(x) <==> x < k - 1 && vx_(r, x as int).subset_of(t));
            if x as int == k - 1 { assert(x == (k - 1) as u32); } else { assert(x != (k - 1) as u32); }
        }
    } else { assert(forall|x: u32| !#[trigger] bdk(r, t, k).contains(x)); }
}
pub proof fn lem_sx(a: Set<u32>, b: Set<u32>) ensures sx(sx(a, b), b) == a, sx(a, b) == sx(b, a), sx(a, a) == Set::<u32>::empty(), sx(a, Set::<u32>::empty()) == a
{ assert(sx(sx(a, b), b) =~= a); assert(sx(a, b) =~= sx(b, a)); assert(sx(a, a) =~= Set::<u32>::empty()); assert(sx(a, Set::<u32>::empty()) =~= a); }
pub proof fn lem_sx4(a: Set<u32>, b: Set<u32>, c: Set<u32>) ensures sx(sx(a, c), b) == sx(sx(a, b), c), sx(sx(a, c), sx(b, c)) == sx(a, b), sx(a, sx(b, c)) == sx(sx(a, b), c)
{ assert(sx(sx(a, c), b) =~= sx(sx(a, b), c)); assert(sx(sx(a, c), sx(b, c)) =~= sx(a, b)); assert(sx(a, sx(b, c)) =~= sx(sx(a, b), c)); }
pub proof fn lem_spn_mono(r: Seq<SE>, c: Seq<SE>, k: int, m: int, x: Set<u32>) requires spn(r, c, k, x), 0 <= k <= m ensures spn(r, c, m, x) decreases m
{ if m > k { lem_spn_mono(r, c, k, m - 1, x); } }
pub proof fn lem_spn_zero(r: Seq<SE>, c: Seq<SE>, k: int) ensures spn(r, c, k, Set::<u32>::empty()) decreases k
{ if k > 0 { lem_spn_zero(r, c, k - 1); } }
pub proof fn lem_spn_add(r: Seq<SE>, c: Seq<SE>, k: int, x: Set<u32>, y: Set<u32>) requires spn(r, c, k, x), spn(r, c, k, y) ensures spn(r, c, k, sx(x, y)) decreases k
{
    if k <= 0 { lem_sx(x, y); } else {
        let b = bd(r, c, k - 1);
        lem_sx4(x, y, b); lem_sx4(y, x, b); lem_sx(x, y); lem_sx(y, x);
        if spn(r, c, k - 1, x) {
            if spn(r, c, k - 1, y) { lem_spn_add(r, c, k - 1, x, y); } else { lem_spn_add(r, c, k - 1, x, sx(y, b)); }
        } else {
            if spn(r, c, k - 1, y) { lem_spn_add(r, c, k - 1, sx(x, b), y); } else { lem_spn_add(r, c, k - 1, sx(x, b), sx(y, b)); }
        }
    }
}
pub proof fn lem_spn_bound(r: Seq<SE>, c: Seq<SE>, k: int, x: Set<u32>) requires spn(r, c, k, x), r.len() < 0x8000_0000 ensures forall|z: u32| #[trigger] x.contains(z) ==> z < r.len() decreases k
{
    if k > 0 && !spn(r, c, k - 1, x) {
        let b = bd(r, c, k - 1); lem_spn_bound(r, c, k - 1, sx(x, b)); lem_bdk(r, vx_(c, k - 1), r.len() as int);
        assert forall|z: u32| #[trigger] x.contains(z) implies z < r.len() by { if !b.contains(z) { assert(sx(x, b).contains(z)); } }
    } else if k > 0 { lem_spn_bound(r, c, k - 1, x); }
}
// ---- chains one level down: f are the faces of r
pub open spec fn xs(f: Seq<SE>, r: Seq<SE>, y: Set<u32>, k: int) -> Set<u32> decreases k
{ if k <= 0 { Set::<u32>::empty() } else if y.contains((k - 1) as u32) { sx(xs(f, r, y, k - 1), bd(f, r, k - 1)) } else { xs(f, r, y, k - 1) } }
pub proof fn lem_xs_lin(f: Seq<SE>, r: Seq<SE>, y: Set<u32>, z: Set<u32>, k: int) ensures xs(f, r, sx(y, z), k) == sx(xs(f, r, y, k), xs(f, r, z, k)) decreases k
{
    if k <= 0 { lem_sx(Set::<u32>::empty(), Set::<u32>::empty()); } else {
        lem_xs_lin(f, r, y, z, k - 1);
        let a = xs(f, r, y, k - 1); let c = xs(f, r, z, k - 1); let b = bd(f, r, k - 1);
        lem_sx4(a, c, b); lem_sx4(c, a, b); lem_sx(a, c); lem_sx(c, a); lem_sx(sx(a, b), c); lem_sx4(a, b, c);
    }
}
pub proof fn lem_xs_spn(f: Seq<SE>, r: Seq<SE>, y: Set<u32>, k: int) ensures spn(f, r, k, xs(f, r, y, k)) decreases k
{ if k > 0 { lem_xs_spn(f, r, y, k - 1); lem_sx(xs(f, r, y, k - 1), bd(f, r, k - 1)); } }
pub proof fn lem_xs_above(f: Seq<SE>, r: Seq<SE>, y: Set<u32>, k: int, m: int) requires 0 <= k <= m < 0x1_0000_0000, forall|z: u32| #[trigger] y.contains(z) ==> z < k ensures xs(f, r, y, m) == xs(f, r, y, k) decreases m
{ if m > k { lem_xs_above(f, r, y, k, m - 1); assert(!y.contains((m - 1) as u32)); } }
pub proof fn lem_xs_zero(f: Seq<SE>, r: Seq<SE>, k: int) ensures xs(f, r, Set::<u32>::empty(), k) == Set::<u32>::empty() decreases k
{ if k > 0 { lem_xs_zero(f, r, k - 1); } }
// the youngest simplex of a cycle fills nothing
pub proof fn lem_cycle_top(f: Seq<SE>, r: Seq<SE>, y: Set<u32>, i: u32) requires r.len() < 0x8000_0000, xs(f, r, y, r.len() as int) == Set::<u32>::empty(), is_top(y, i), i < r.len() ensures !fills(f, r, i as int)
{
    lem_xs_above(f, r, y, i + 1, r.len() as int);
    let a = xs(f, r, y, i as int); let b = bd(f, r, i as int);
    assert(sx(a, b) == Set::<u32>::empty());
    assert(a =~= b) by { assert forall|z: u32| a.contains(z) <==> b.contains(z) by { assert(!sx(a, b).contains(z)); } }
    lem_xs_spn(f, r, y, i as int);
}
// boundary of a boundary
pub proof fn lem_dd_none(f: Seq<SE>, r: Seq<SE>, y: Set<u32>, g: u32, k: int)
    requires f.len() < 0x8000_0000, 0 <= k <= r.len() < 0x8000_0000, forall|i: int| 0 <= i < r.len() && #[trigger] y.contains(i as u32) ==> !(g < f.len() && vx_(f, g as int).subset_of(vx_(r, i)))
    ensures !xs(f, r, y, k).contains(g) decreases k
{ if k > 0 { lem_dd_none(f, r, y, g, k - 1); lem_bdk(f, vx_(r, k - 1), f.len() as int); } }
pub proof fn lem_dd_two(f: Seq<SE>, r: Seq<SE>, y: Set<u32>, g: u32, k: int, p: int, q: int)
    requires f.len() < 0x8000_0000, 0 <= k <= r.len() < 0x8000_0000, g < f.len(), p != q, 0 <= p, 0 <= q,
        two(f, r, y, g, p, q),
    ensures xs(f, r, y, k).contains(g) <==> ((p < k) != (q < k)) decreases k
{
    if k > 0 {
        lem_dd_two(f, r, y, g, k - 1, p, q); lem_bdk(f, vx_(r, k - 1), f.len() as int);
        assert((y.contains((k - 1) as u32) && vx_(f, g as int).subset_of(vx_(r, k - 1))) <==> (k - 1 == p || k - 1 == q)) by { reveal(two); }
    } else { assert(!xs(f, r, y, k).contains(g)); }
}
#[verifier::opaque]
pub open spec fn two(f: Seq<SE>, r: Seq<SE>, y: Set<u32>, g: u32, p: int, q: int) -> bool
{ forall|i: int| 0 <= i < r.len() ==> ((#[trigger] y.contains(i as u32) && vx_(f, g as int).subset_of(vx_(r, i))) <==> (i == p || i == q)) }
pub proof fn lem_dd(l: Seq<CVec<SE>>, d: int, j: int)
    requires filtered(l), 1 <= d, d + 1 < l.len(), 0 <= j < lv(l, d + 1).len(), small(l, d)
    ensures xs(lv(l, d - 1), lv(l, d), bd(lv(l, d), lv(l, d + 1), j), lv(l, d).len() as int) == Set::<u32>::empty()
{
    let f = lv(l, d - 1); let r = lv(l, d); let c = lv(l, d + 1); let t = vx_(c, j); let y = bd(r, c, j); let n = r.len() as int;
    assert(flevel_ok(lv(l, d - 1), d - 1)); assert(flevel_ok(lv(l, d), d)); assert(flevel_ok(lv(l, d + 1), d + 1));
    assert(faces_ok(lv(l, d + 1), lv(l, d + 1 - 1)));
    lem_bdk(r, t, n);
    assert(t.len() == d + 2);
    let w = xs(f, r, y, n);
    assert forall|g: u32| !w.contains(g) by {
        if g < f.len() && vx_(f, g as int).subset_of(t) {
            let s = vx_(f, g as int); assert(s.len() == d);
            lem_union_card(t.difference(s), s); assert(t.difference(s).union(s) =~= t); assert(t.difference(s).intersect(s) =~= Set::<u32>::empty());
            let m = t.difference(s); assert(m.len() == 2);
            let a = m.choose(); assert(m.contains(a)); let b = m.remove(a).choose(); assert(m.remove(a).len() == 1); assert(m.remove(a).contains(b)); lem_pair(m, a, b);
            assert(in_level(r, vx_(c, j).remove(b))); assert(in_level(r, vx_(c, j).remove(a)));
            let p = choose|p: int| 0 <= p < r.len() && #[trigger] vx_(r, p) == t.remove(b);
            let q = choose|q: int| 0 <= q < r.len() && #[trigger] vx_(r, q) == t.remove(a);
            assert(vx_(r, p).contains(a) && !vx_(r, q).contains(a));
            assert forall|i: int| 0 <= i < r.len() implies ((#[trigger] y.contains(i as u32) && s.subset_of(vx_(r, i))) <==> (i == p || i == q)) by {
                let e = vx_(r, i);
                if e.subset_of(t) && s.subset_of(e) {
                    assert(e.len() == d + 1);
                    if e.contains(a) && e.contains(b) { assert(t.subset_of(e)) by { assert forall|z: u32| t.contains(z) implies e.contains(z) by { if !s.contains(z) { assert(m.contains(z)); } } } lem_subset_card(t, e); }
                    if !e.contains(b) { lem_subset_card(e, t.remove(b)); assert(e == t.remove(b)); if i < p { assert(vx_(r, i) != vx_(r, p)); } if p < i { assert(vx_(r, p) != vx_(r, i)); } }
                    if !e.contains(a) { lem_subset_card(e, t.remove(a)); assert(e == t.remove(a)); if i < q { assert(vx_(r, i) != vx_(r, q)); } if q < i { assert(vx_(r, q) != vx_(r, i)); } }
                }
                if i == p { assert(s.subset_of(e)) by { assert forall|z: u32| s.contains(z) implies e.contains(z) by { assert(!m.contains(z)); assert(z != b); } } }
                if i == q { assert(s.subset_of(e)) by { assert forall|z: u32| s.contains(z) implies e.contains(z) by { assert(!m.contains(z)); assert(z != a); } } }
            }
            assert(two(f, r, y, g, p, q)) by { reveal(two); }
            lem_dd_two(f, r, y, g, n, p, q);
        } else {
            assert forall|i: int| 0 <= i < r.len() && #[trigger] y.contains(i as u32) implies !(g < f.len() && vx_(f, g as int).subset_of(vx_(r, i))) by {
                if g < f.len() && vx_(f, g as int).subset_of(vx_(r, i)) { assert(vx_(r, i).subset_of(t)); assert forall|z: u32| vx_(f, g as int).contains(z) implies t.contains(z) by { assert(vx_(r, i).contains(z)); } }
            }
            lem_dd_none(f, r, y, g, n);
        }
    }
    assert(w =~= Set::<u32>::empty());
}
pub proof fn lem_spn_cycle(l: Seq<CVec<SE>>, d: int, k: int, x: Set<u32>)
    requires filtered(l), 1 <= d, d + 1 < l.len(), 0 <= k <= lv(l, d + 1).len(), small(l, d), spn(lv(l, d), lv(l, d + 1), k, x)
    ensures xs(lv(l, d - 1), lv(l, d), x, lv(l, d).len() as int) == Set::<u32>::empty() decreases k
{
    let f = lv(l, d - 1); let r = lv(l, d); let c = lv(l, d + 1); let n = r.len() as int;
    if k <= 0 { lem_xs_zero(f, r, n); }
    else if spn(r, c, k - 1, x) { lem_spn_cycle(l, d, k - 1, x); }
    else {
        let b = bd(r, c, k - 1);
        lem_spn_cycle(l, d, k - 1, sx(x, b)); lem_dd(l, d, k - 1);
        lem_xs_lin(f, r, sx(x, b), b, n); lem_sx(x, b); lem_sx(Set::<u32>::empty(), Set::<u32>::empty());
    }
}
// an edge that joins two components fills a zero-dimensional class
pub open spec fn even(x: Set<u32>, s: Set<u32>) -> bool { x.intersect(s).len() as int % 2 == 0 }
pub proof fn lem_even_sx(a: Set<u32>, b: Set<u32>, s: Set<u32>) ensures even(sx(a, b), s) == (even(a, s) == even(b, s))
{
    let p = a.intersect(s); let q = b.intersect(s);
    lem_union_card(p.difference(q), q.difference(p));
    assert(p.difference(q).intersect(q.difference(p)) =~= Set::<u32>::empty());
    assert(p.difference(q).union(q.difference(p)) =~= sx(a, b).intersect(s));
    lem_union_card(p.difference(q), p.intersect(q)); assert(p.difference(q).union(p.intersect(q)) =~= p); assert(p.difference(q).intersect(p.intersect(q)) =~= Set::<u32>::empty());
    lem_union_card(q.difference(p), p.intersect(q)); assert(q.difference(p).union(p.intersect(q)) =~= q); assert(q.difference(p).intersect(p.intersect(q)) =~= Set::<u32>::empty());
}
pub proof fn lem_edge_even(l: Seq<CVec<SE>>, j: int, s: Set<u32>)
    requires filtered(l), l.len() >= 2, 0 <= j < lv(l, 1).len(), small(l, 1)
    ensures even(bd(lv(l, 0), lv(l, 1), j), bdk(lv(l, 0), s, lv(l, 0).len() as int)) == !cross(vx_(lv(l, 1), j), s)
{
    let f = lv(l, 0); let e = lv(l, 1); let t = vx_(e, j); let b = bd(f, e, j); let n = f.len() as int; let u = bdk(f, s, n);
    assert(flevel_ok(lv(l, 0), 0)); assert(flevel_ok(lv(l, 1), 1)); assert(faces_ok(lv(l, 1), lv(l, 1 - 1)));
    lem_bdk(f, t, n); lem_bdk(f, s, n);
    let x = t.choose(); assert(t.contains(x)); let y = t.remove(x).choose(); assert(t.remove(x).len() == 1); assert(t.remove(x).contains(y)); lem_pair(t, x, y);
    assert(in_level(f, vx_(e, j).remove(y))); assert(in_level(f, vx_(e, j).remove(x)));
    let p = choose|p: int| 0 <= p < f.len() && #[trigger] vx_(f, p) == t.remove(y);
    let q = choose|q: int| 0 <= q < f.len() && #[trigger] vx_(f, q) == t.remove(x);
    assert(t.remove(y) =~= Set::<u32>::empty().insert(x)); assert(t.remove(x) =~= Set::<u32>::empty().insert(y));
    assert(vx_(f, p).contains(x) && vx_(f, q).contains(y));
    let pp = p as u32; let qq = q as u32;
    assert(p != q);
    assert forall|i: u32| b.contains(i) <==> (i == pp || i == qq) by {
        if b.contains(i) {
            let g = vx_(f, i as int); assert(g.len() == 1); let z = g.choose(); assert(g.contains(z)); lem_single(g, z); assert(t.contains(z));
            if i < p { assert(vx_(f, i as int) != vx_(f, p)); } if p < i { assert(vx_(f, p) != vx_(f, i as int)); } if i < q { assert(vx_(f, i as int) != vx_(f, q)); } if q < i { assert(vx_(f, q) != vx_(f, i as int)); }
        }
    }
    assert(u.contains(pp) <==> s.contains(x)); assert(u.contains(qq) <==> s.contains(y));
    let m = b.intersect(u); let none = Set::<u32>::empty();
    if s.contains(x) && s.contains(y) { assert(m =~= none.insert(pp).insert(qq)); assert(m.len() == 2); }
    else if s.contains(x) { assert(m =~= none.insert(pp)); assert(m.len() == 1); assert(t.contains(x) && t.contains(y)); assert(cross(t, s)); }
    else if s.contains(y) { assert(m =~= none.insert(qq)); assert(m.len() == 1); assert(t.contains(x) && t.contains(y)); assert(cross(t, s)); }
    else { assert(m =~= none); }
}
pub proof fn lem_spn_even(l: Seq<CVec<SE>>, k: int, s: Set<u32>, x: Set<u32>)
    requires filtered(l), l.len() >= 2, 0 <= k <= lv(l, 1).len(), small(l, 1), closed(lv(l, 1), k, s), spn(lv(l, 0), lv(l, 1), k, x)
    ensures even(x, bdk(lv(l, 0), s, lv(l, 0).len() as int)) decreases k
{
    let f = lv(l, 0); let e = lv(l, 1); let u = bdk(f, s, f.len() as int);
    if k <= 0 { assert(x.intersect(u) =~= Set::<u32>::empty()); }
    else {
        lem_closed_less(e, k - 1, k, s);
        if spn(f, e, k - 1, x) { lem_spn_even(l, k - 1, s, x); }
        else { let b = bd(f, e, k - 1); lem_spn_even(l, k - 1, s, sx(x, b)); lem_edge_even(l, k - 1, s); assert(!cross(vx_(e, k - 1), s)); lem_even_sx(x, b, u); }
    }
}
pub proof fn lem_joins_fills(l: Seq<CVec<SE>>, k: int) requires filtered(l), l.len() >= 2, 0 <= k < lv(l, 1).len(), small(l, 1), joins(lv(l, 1), k) ensures fills(lv(l, 0), lv(l, 1), k)
{
    let f = lv(l, 0); let e = lv(l, 1);
    let s = choose|s: Set<u32>| #[trigger] closed(e, k, s) && cross(vx_(e, k), s);
    lem_edge_even(l, k, s);
    if spn(f, e, k, bd(f, e, k)) { lem_spn_even(l, k, s, bd(f, e, k)); }
}
pub proof fn lem_ji(e: Seq<SE>, k: int) requires 0 <= k <= e.len() < 0x8000_0000 ensures sorted_lt(ji(e, k)), forall|i: int| 0 <= i < ji(e, k).len() ==> (#[trigger] ji(e, k)[i]) < k && joins(e, ji(e, k)[i] as int) decreases k
{
    if k > 0 {
        lem_ji(e, k - 1); let a = ji(e, k); let b = ji(e, k - 1);
        assert forall|i: int| 0 <= i < a.len() implies (#[trigger] ji(e, k)[i]) < k && joins(e, ji(e, k)[i] as int) by { if i < b.len() { assert(a[i] == b[i]); assert(ji(e, k - 1)[i] < k - 1); } }
        assert forall|i: int, j: int| #![trigger a[i], a[j]] 0 <= i < j < a.len() implies cless(a[i], a[j]) by { assert(a[i] == b[i]); assert(ji(e, k - 1)[i] < k - 1); if j < b.len() { assert(a[j] == b[j]); assert(cless(b[i], b[j])); } }
    }
}
pub proof fn lem_fl(r: Seq<SE>, c: Seq<SE>, k: int) requires 0 <= k <= c.len() < 0x8000_0000 ensures sorted_lt(fl(r, c, k)), forall|i: int| 0 <= i < fl(r, c, k).len() ==> (#[trigger] fl(r, c, k)[i]) < k && fills(r, c, fl(r, c, k)[i] as int) decreases k
{
    if k > 0 {
        lem_fl(r, c, k - 1); let a = fl(r, c, k); let b = fl(r, c, k - 1);
        assert forall|i: int| 0 <= i < a.len() implies (#[trigger] fl(r, c, k)[i]) < k && fills(r, c, fl(r, c, k)[i] as int) by { if i < b.len() { assert(a[i] == b[i]); assert(fl(r, c, k - 1)[i] < k - 1); } }
        assert forall|i: int, j: int| #![trigger a[i], a[j]] 0 <= i < j < a.len() implies cless(a[i], a[j]) by { assert(a[i] == b[i]); assert(fl(r, c, k - 1)[i] < k - 1); if j < b.len() { assert(a[j] == b[j]); assert(cless(b[i], b[j])); } }
    }
}
// ---- clearing: the youngest simplex of a boundary is never a skipped row
#[verifier::opaque]
pub open spec fn clr(r: Seq<SE>, c: Seq<SE>, n: Set<u32>) -> bool { forall|k: int, x: Set<u32>, p: u32| 0 <= k <= c.len() && #[trigger] spn(r, c, k, x) && #[trigger] is_top(x, p) ==> !n.contains(p) }
pub proof fn lem_clr(l: Seq<CVec<SE>>, d: int)
    requires filtered(l), 1 <= d, d + 1 < l.len(), small(l, d)
    ensures clr(lv(l, d), lv(l, d + 1), skips(l, d).to_set()), sorted_lt(skips(l, d)), forall|i: int| 0 <= i < skips(l, d).len() ==> (#[trigger] skips(l, d)[i]) < lv(l, d).len()
{
    reveal(clr);
    let f = lv(l, d - 1); let r = lv(l, d); let c = lv(l, d + 1); let sk = skips(l, d);
    if d <= 1 { lem_ji(r, r.len() as int); } else { lem_fl(f, r, r.len() as int); }
    assert forall|k: int, x: Set<u32>, p: u32| 0 <= k <= c.len() && #[trigger] spn(r, c, k, x) && #[trigger] is_top(x, p) implies !sk.to_set().contains(p) by {
        lem_spn_cycle(l, d, k, x); lem_spn_bound(r, c, k, x); assert(x.contains(p));
        lem_cycle_top(f, r, x, p);
        if sk.to_set().contains(p) {
            let i = choose|i: int| 0 <= i < sk.len() && sk[i] == p;
            if d <= 1 { assert(joins(r, ji(r, r.len() as int)[i] as int)); lem_joins_fills(l, p as int); } else { assert(fills(f, r, fl(f, r, r.len() as int)[i] as int)); }
        }
    }
}
// ---- state of the reduction before column j
#[verifier::opaque]
pub open spec fn rstate(r: Seq<SE>, c: Seq<SE>, n: Set<u32>, j: int, v: Map<u32, CSet<u32>>) -> bool {
    &&& forall|p: u32| #[trigger] v.contains_key(p) ==> is_top(v[p].s(), p) && exists|y: Set<u32>| #[trigger] spn(r, c, j, y) && v[p].s() == y.difference(n)
    &&& forall|x: Set<u32>| #[trigger] spn(r, c, j, x) && x.len() > 0 ==> exists|p: u32| #[trigger] v.contains_key(p) && is_top(x, p)
}
pub proof fn lem_last_top(c: CSet<u32>) requires c.s().len() > 0 ensures c@.len() > 0, is_top(c.s(), c@.last())
{
    let l = c@.last();
    assert forall|y: u32| #[trigger] c.s().contains(y) implies y <= l by { let k = choose|k: int| 0 <= k < c@.len() && c@[k] == y; if k < c@.len() - 1 { assert(cless(c@[k], c@[c@.len() - 1])); } }
    assert(c@.contains(l)) by { assert(c@[c@.len() - 1] == l); }
}
pub proof fn lem_has_top(x: Set<u32>) -> (p: u32) requires x.len() > 0 ensures is_top(x, p)
{ let c = cset_of(x); lem_last_top(c); c@.last() }
pub proof fn lem_rinit(r: Seq<SE>, c: Seq<SE>, n: Set<u32>) ensures rstate(r, c, n, 0, Map::<u32, CSet<u32>>::empty())
{ reveal(rstate); }
// the restricted chain has the top of the full one
pub proof fn lem_rtop(r: Seq<SE>, c: Seq<SE>, n: Set<u32>, j: int, x: Set<u32>) requires clr(r, c, n), 0 <= j < c.len(), homol(r, c, j, x)
    ensures x.difference(n).len() == 0 ==> x == Set::<u32>::empty(), forall|p: u32| is_top(x.difference(n), p) ==> is_top(x, p), spn(r, c, j + 1, x)
{
    assert(spn(r, c, j + 1, x));
    if x.len() > 0 {
        let q = lem_has_top(x);
        assert(!n.contains(q)) by { reveal(clr); assert(spn(r, c, j + 1, x) && is_top(x, q)); }
        assert(x.difference(n).contains(q));
    } else { assert(x =~= Set::<u32>::empty()); }
}
pub proof fn lem_rempty(r: Seq<SE>, c: Seq<SE>, n: Set<u32>, j: int, v: Map<u32, CSet<u32>>, x: Set<u32>)
    requires rstate(r, c, n, j, v), clr(r, c, n), 0 <= j < c.len(), homol(r, c, j, x), x.difference(n).len() == 0
    ensures !fills(r, c, j), rstate(r, c, n, j + 1, v)
{
    lem_rtop(r, c, n, j, x); let b = bd(r, c, j);
    lem_sx(b, x); assert(x == Set::<u32>::empty()); assert(sx(x, b) == b) by { lem_sx(x, b); lem_sx(b, x); }
    assert(spn(r, c, j, b));
    reveal(rstate);
    assert forall|p: u32| #[trigger] v.contains_key(p) implies is_top(v[p].s(), p) && exists|y: Set<u32>| #[trigger] spn(r, c, j + 1, y) && v[p].s() == y.difference(n) by {
        let y = choose|y: Set<u32>| #[trigger] spn(r, c, j, y) && v[p].s() == y.difference(n); assert(spn(r, c, j + 1, y));
    }
    assert forall|z: Set<u32>| #[trigger] spn(r, c, j + 1, z) && z.len() > 0 implies exists|p: u32| #[trigger] v.contains_key(p) && is_top(z, p) by {
        if !spn(r, c, j, z) { lem_spn_add(r, c, j, sx(z, b), b); lem_sx(z, b); }
        assert(spn(r, c, j, z));
    }
}
pub proof fn lem_sx_top(x: Set<u32>, y: Set<u32>, p: u32) requires is_top(x, p), forall|z: u32| #[trigger] y.contains(z) ==> z < p ensures is_top(sx(x, y), p)
{ }
pub proof fn lem_homol_sx(r: Seq<SE>, c: Seq<SE>, j: int, x: Set<u32>, y: Set<u32>) requires homol(r, c, j, x), homol(r, c, j, y) ensures spn(r, c, j, sx(x, y))
{ let b = bd(r, c, j); lem_spn_add(r, c, j, sx(x, b), sx(y, b)); lem_sx4(x, y, b); }
pub proof fn lem_rnew(r: Seq<SE>, c: Seq<SE>, n: Set<u32>, j: int, v: Map<u32, CSet<u32>>, x: Set<u32>, k: CSet<u32>, p: u32)
    requires rstate(r, c, n, j, v), clr(r, c, n), 0 <= j < c.len(), homol(r, c, j, x), k.s() == x.difference(n), is_top(k.s(), p), !v.contains_key(p)
    ensures fills(r, c, j), creator(r, c, j) == p, rstate(r, c, n, j + 1, v.insert(p, k))
{
    lem_rtop(r, c, n, j, x); let b = bd(r, c, j); let v2 = v.insert(p, k);
    assert(is_top(x, p)); assert(x.contains(p)); assert(x.len() > 0);
    assert forall|y: Set<u32>, q: u32| #[trigger] spn(r, c, j, y) && #[trigger] is_top(y, q) implies v.contains_key(q) by {
        assert(y.contains(q)); assert(y.len() > 0); reveal(rstate); let o = choose|o: u32| #[trigger] v.contains_key(o) && is_top(y, o); assert(o == q);
    }
    if spn(r, c, j, b) { lem_spn_add(r, c, j, sx(x, b), b); lem_sx(x, b); assert(spn(r, c, j, x)); assert(is_top(x, p)); assert(false); }
    assert(fills(r, c, j));
    assert forall|y: Set<u32>| #[trigger] homol(r, c, j, y) implies exists|z: u32| y.contains(z) && z >= p by {
        if forall|z: u32| #[trigger] y.contains(z) ==> z < p { lem_homol_sx(r, c, j, x, y); lem_sx_top(x, y, p); assert(spn(r, c, j, sx(x, y)) && is_top(sx(x, y), p)); }
    }
    assert(pair_(r, c, p, j));
    lem_pair_unique(r, c, p, j);
    assert(rstate(r, c, n, j + 1, v2)) by {
        assert forall|q: u32| #[trigger] v2.contains_key(q) implies is_top(v2[q].s(), q) && exists|y: Set<u32>| #[trigger] spn(r, c, j + 1, y) && v2[q].s() == y.difference(n) by {
            if q == p { assert(spn(r, c, j + 1, x)); } else { reveal(rstate); assert(v.contains_key(q)); let y = choose|y: Set<u32>| #[trigger] spn(r, c, j, y) && v[q].s() == y.difference(n); assert(spn(r, c, j + 1, y)); }
        }
        assert forall|z: Set<u32>| #[trigger] spn(r, c, j + 1, z) && z.len() > 0 implies exists|q: u32| #[trigger] v2.contains_key(q) && is_top(z, q) by {
            let q = lem_has_top(z);
            if spn(r, c, j, z) { assert(is_top(z, q)); assert(v2.contains_key(q)); }
            else {
                assert(homol(r, c, j, z)); lem_homol_sx(r, c, j, x, z); lem_sx(x, z);
                if q < p { lem_sx_top(x, z, p); assert(is_top(sx(x, z), p)); }
                else if q > p { lem_sx_top(z, x, q); assert(sx(z, x) == sx(x, z)); assert(is_top(sx(x, z), q)); assert(v2.contains_key(q)); }
                else { assert(v2.contains_key(q)); }
            }
        }
        reveal(rstate);
    }
}
pub proof fn lem_rstep(r: Seq<SE>, c: Seq<SE>, n: Set<u32>, j: int, v: Map<u32, CSet<u32>>, x: Set<u32>, k: Set<u32>, p: u32) -> (z: Set<u32>)
    requires rstate(r, c, n, j, v), clr(r, c, n), 0 <= j < c.len(), homol(r, c, j, x), k == x.difference(n), is_top(k, p), v.contains_key(p)
    ensures homol(r, c, j, z), sx(v[p].s(), k) == z.difference(n), forall|y: u32| #[trigger] sx(v[p].s(), k).contains(y) ==> y < p, sx(v[p].s(), k) != k
{
    let w = v[p].s(); let b = bd(r, c, j);
    reveal(rstate);
    assert(is_top(w, p));
    let y = choose|y: Set<u32>| #[trigger] spn(r, c, j, y) && v[p].s() == y.difference(n);
    let z = sx(y, x);
    lem_spn_add(r, c, j, y, sx(x, b)); lem_sx4(y, x, b);
    assert(sx(w, k) =~= z.difference(n));
    assert(k.contains(p) && w.contains(p) && !sx(w, k).contains(p));
    assert forall|q: u32| #[trigger] sx(w, k).contains(q) implies q < p by { assert(w.contains(q) || k.contains(q)); }
    z
}
// ---- output
pub open spec fn none() -> Seq<Bar> { Seq::<Bar>::empty() }
pub open spec fn entry_is(x: BettiBoundaryTableEntry, b: Bar) -> bool { x.bettiDim == b.d && x.birth@ == b.b && x.death@ == b.e }
/// the rows added to the table name only points of the filtration
#[verifier::opaque]
pub open spec fn pts_in(n0: int, t: Seq<BettiBoundaryTableEntry>, vs: Set<u32>) -> bool { forall|i: int| n0 <= i < t.len() ==> (#[trigger] t[i]).boundaryPoints.s().subset_of(vs) }
pub open spec fn points(l: Seq<CVec<SE>>) -> Set<u32> { verts(lv(l, 0), lv(l, 0).len() as int) }
pub proof fn lem_pts_init(t: Seq<BettiBoundaryTableEntry>, vs: Set<u32>) ensures pts_in(t.len() as int, t, vs) { reveal(pts_in); }
pub proof fn lem_pts_push(n0: int, t: Seq<BettiBoundaryTableEntry>, vs: Set<u32>, x: BettiBoundaryTableEntry) requires pts_in(n0, t, vs), x.boundaryPoints.s().subset_of(vs) ensures pts_in(n0, t.push(x), vs) { reveal(pts_in); }
/// the vertices of a listed simplex are listed
pub proof fn lem_points(l: Seq<CVec<SE>>, d: int, k: int) requires filtered(l), 0 <= d < l.len(), 0 <= k < lv(l, d).len() ensures vx_(lv(l, d), k).subset_of(points(l)) decreases d
{
    assert(flevel_ok(lv(l, 0), 0)); lem_verts(lv(l, 0), lv(l, 0).len() as int);
    if d > 0 {
        let a = vx_(lv(l, d), k); let f = lv(l, d - 1);
        assert(flevel_ok(lv(l, d), d)); assert(faces_ok(lv(l, d), f)); assert(a.len() == d + 1);
        assert forall|x: u32| a.contains(x) implies points(l).contains(x) by {
            let y = a.remove(x).choose(); assert(a.remove(x).len() == d); assert(a.remove(x).contains(y));
            assert(in_level(f, vx_(lv(l, d), k).remove(y)));
            let j = choose|j: int| 0 <= j < f.len() && #[trigger] vx_(f, j) == vx_(lv(l, d), k).remove(y);
            lem_points(l, d - 1, j);
            assert(vx_(f, j).contains(x));
        }
    }
}
pub proof fn lem_table_init(t: Seq<BettiBoundaryTableEntry>) ensures table_is(t, t, none()) { reveal(table_is); }
pub proof fn lem_table_zero(t0: Seq<BettiBoundaryTableEntry>, t: Seq<BettiBoundaryTableEntry>, x: BettiBoundaryTableEntry) requires table_is(t0, t, none()), x.bettiDim == 0 ensures table_is(t0, t.push(x), none())
{ reveal(table_is); }
pub proof fn lem_table_push(t0: Seq<BettiBoundaryTableEntry>, t: Seq<BettiBoundaryTableEntry>, h: Seq<Bar>, x: BettiBoundaryTableEntry, b: Bar) requires table_is(t0, t, h), entry_is(x, b) ensures table_is(t0, t.push(x), h.push(b))
{
    reveal(table_is);
    let u = t.push(x); let g = h.push(b);
    assert forall|i: int| 0 <= i < g.len() implies g[i].d == (#[trigger] u[u.len() - g.len() + i]).bettiDim && g[i].b == u[u.len() - g.len() + i].birth@ && g[i].e == u[u.len() - g.len() + i].death@ by {
        if i < h.len() { assert(u[u.len() - g.len() + i] == t[t.len() - h.len() + i]); }
    }
    assert forall|i: int| 0 <= i < u.len() - g.len() implies if i < t0.len() { #[trigger] u[i] == t0[i] } else { u[i].bettiDim == 0 } by { assert(u[i] == t[i]); }
}
pub proof fn lem_jtext(l: Seq<F64>, m: Seq<F64>, k: int) requires 0 <= k <= l.len(), k <= m.len(), forall|i: int| 0 <= i < k ==> l[i] == m[i] ensures jtext(l, k) == jtext(m, k) decreases k
{ if k > 0 { lem_jtext(l, m, k - 1); } }
pub proof fn lem_jtext_push(z: Seq<F64>, x: F64) ensures jtext(z.push(x), z.len() as int + 1) == jtext(z, z.len() as int) + line0(x@)
{ lem_jtext(z.push(x), z, z.len() as int); }
/// which rows are skipped, seen by a pointer that walks the sorted list
pub proof fn lem_row(s: Seq<u32>, p: int, k: u32) requires sorted_lt(s), 0 <= p <= s.len(), forall|i: int| 0 <= i < p ==> (#[trigger] s[i]) < k, forall|i: int| p <= i < s.len() ==> (#[trigger] s[i]) >= k
    ensures s.to_set().contains(k) == (p < s.len() && s[p] == k), p < s.len() && s[p] == k ==> forall|i: int| p + 1 <= i < s.len() ==> (#[trigger] s[i]) >= k + 1,
        !(p < s.len() && s[p] == k) ==> forall|i: int| p <= i < s.len() ==> (#[trigger] s[i]) >= k + 1,
{
    assert forall|i: int| p < i < s.len() implies (#[trigger] s[i]) > k by { assert(cless(s[p], s[i])); }
    if s.to_set().contains(k) { let i = choose|i: int| 0 <= i < s.len() && s[i] == k; }
}
