@fn st_new
cxx: simplexTree::simplexTree
file: Complex/simplexTree.cpp
sig: double;std::vector<std::vector<double>>;int
self: ctor SimplexTree
params: _maxEpsilon _distMatrix _maxDim
requires:
    1 <= _maxDim < MAXLEN, square(_distMatrix@),
ensures:
    tree(ret), ret.runningVectorIndices@.len() == 0, ret.distMatrix == _distMatrix, ret.maxEpsilon == _maxEpsilon, ret.maxDimension == _maxDim, ret.nodeCount == 0,
at exit:
    proof { let g = geo(this_, base(this_)); lem_empty_tree(this_.heap, g, this_.weightEdgeGraph@); assert forall|x: Seq<u32>| !simplex(g, 0, x) by { lem_no_simplex(g, 0, x); } }
@end

@fn st_recurse
cxx: simplexTree::recurseInsert
file: Complex/simplexTree.cpp
self: mut SimplexTree
params: node curIndex depth maxE simp
attrs: #[verifier::rlimit(60)]
requires:
    mid(*old(this), old(this).runningVectorCount + 1 - old(this).runningVectorIndices@.len()),
    live(old(this).heap, node), curIndex == old(this).indexCounter, depth == labp(old(this).heap, node).len() - 1,
    labp(old(this).heap, node).len() <= old(this).maxDimension, labp(old(this).heap, node).last() < curIndex,
    simp.s() == labp(old(this).heap, node).drop_last().push(curIndex).to_set(),
    maxE@ == wt(geo(*old(this), old(this).runningVectorCount + 1 - old(this).runningVectorIndices@.len()), labp(old(this).heap, node).drop_last().push(curIndex)),
    labp(old(this).heap, node).len() > 1 ==> maxE@ < old(this).maxEpsilon@,
    forall|x: Seq<u32>| #[trigger] old(this).heap.at@.dom().contains(x) ==> !added(geo(*old(this), old(this).runningVectorCount + 1 - old(this).runningVectorIndices@.len()), curIndex, labp(old(this).heap, node), x),
ensures:
    mid(*final(this), old(this).runningVectorCount + 1 - old(this).runningVectorIndices@.len()),
    forall|x: Seq<u32>| #[trigger] final(this).heap.at@.dom().contains(x) <==> old(this).heap.at@.dom().contains(x) || added(geo(*old(this), old(this).runningVectorCount + 1 - old(this).runningVectorIndices@.len()), curIndex, labp(old(this).heap, node), x),
    forall|x: Seq<u32>| #[trigger] old(this).heap.at@.dom().contains(x) ==> final(this).heap.at@[x] == old(this).heap.at@[x],
    forall|i: int| 0 <= i < old(this).heap.lab@.len() ==> #[trigger] final(this).heap.lab@[i] == old(this).heap.lab@[i],
    old(this).heap.lab@.len() <= final(this).heap.lab@.len(),
    *final(this) == (SimplexTree { heap: final(this).heap, weightEdgeGraph: final(this).weightEdgeGraph, nodeCount: final(this).nodeCount, ..*old(this) }),
decreases:
    old(this).maxDimension + 1 - labp(old(this).heap, node).len()
at entry:
    let ghost o = this.runningVectorCount + 1 - this.runningVectorIndices@.len(); let ghost g = geo(*this, o); let ghost h0 = this.heap; let ghost s = labp(h0, node); let ghost m = curIndex; let ghost t0 = *this; let ghost w0 = this.weightEdgeGraph@;
    let ghost b = s.drop_last(); let ghost sm = s.push(m); let ghost mut h1 = this.heap; let ghost mut vt: u32 = 0;
    proof { lem_live(h0, g, node); assert(simplex(g, m + 1, s)); lem_wt_step(g, s, m); assert(s =~= b.push(s.last())); assert(s[s.len() - 1] == s.last());
        lem_wt_push(g, b, m); lem_maxd_nonneg(g, b, m); lem_wt_nonneg(g, s); assert(sm.drop_last() =~= s);
        lem_inc_sub(s, g.o, m + 1, s.len() as int); assert(s.subrange(0, s.len() as int) =~= s);
        assert forall|i: int| 0 <= i < s.len() implies o <= #[trigger] s[i] < m by { if i < s.len() - 1 { assert(cless(s[i], s[s.len() - 1])); } }
        lem_inc_push(s, o, m); lem_tset(b, m); lem_tset(s, m); lem_tset(b, s.last()); assert(sm.to_set() =~= simp.s().insert(s.last())); lem_sorted_set_len(sm);
        if s.len() == 1 { reveal_with_fuel(wt, 3); reveal_with_fuel(maxd, 3); }
        assert(pre(s, s)) by { assert(s.subrange(0, s.len() as int) =~= s); }
        assert forall|x: Seq<u32>| wt(g, sm) >= g.eps implies !#[trigger] added(g, m, s, x) by { lem_added_none(g, m, s, x); }
        assert(tdist(g, s.last(), m) >= 0real); assert(wt(g, s) < g.eps || s.len() == 1);
    }
at if.2.then:
    proof { assert(wt(g, sm) < g.eps); assert(simplex(g, m + 1, sm)); assert(added(g, m, s, sm)); }
at if.4.before:
    proof {
        assert(simp.s() =~= sm.to_set()); assert(simp == cset_of(simp.s())); assert(maxE@ == wt(g, sm)); assert(f64_of(maxE@) == maxE);
        assert(!h0.at@.dom().contains(sm));
        assert(s.len() <= w0.len()) by { reveal(rep); }
        lem_rep_add(w0, this.weightEdgeGraph@, g, h0.at@.dom(), sm);
        this.heap.lab@ = h0.lab@.push(sm); this.heap.at@ = h0.at@.insert(sm, h0.nodes@.len() as int);
        assert(h0.at@.insert(sm, h0.nodes@.len() as int).dom() =~= h0.at@.dom().insert(sm));
    }
at if.5.before:
    proof { lem_j_add(h0, this.heap, g, s, m); assert(mid(*this, o)); lem_kids(h0, this.heap, g, s, m, temp); }
at if.5.then:
    proof {
        assert forall|x: Seq<u32>| #[trigger] this.heap.at@.dom().contains(x) <==> h0.at@.dom().contains(x) || x == sm || through(g, m, s, x, labp(h0, temp).last() + 1) by {
            if through(g, m, s, x, labp(h0, temp).last() + 1) { lem_added_split(g, m, s, x); let w = x.drop_last()[s.len() as int]; assert(x != sm); assert(h0.at@.dom().contains(s.push(w))); }
        }
    }
at if.5.after:
    proof { assert forall|x: Seq<u32>| added(g, m, s, x) && s.len() >= t0.maxDimension implies x == sm by { lem_added_split(g, m, s, x); } }
loop 1 except:
    mid(*this, o), *this == (SimplexTree { heap: this.heap, weightEdgeGraph: this.weightEdgeGraph, nodeCount: this.nodeCount, ..t0 }),
    live(h0, temp), labp(h0, temp) == s.push(labp(h0, temp).last()), labp(h0, temp).last() < m, s.len() + 1 <= t0.maxDimension,
    forall|x: Seq<u32>| #[trigger] this.heap.at@.dom().contains(x) <==> h0.at@.dom().contains(x) || x == sm || through(g, m, s, x, labp(h0, temp).last() + 1),
    forall|x: Seq<u32>| #[trigger] h0.at@.dom().contains(x) ==> this.heap.at@[x] == h0.at@[x], this.heap.lab@.len() >= h0.lab@.len(),
    forall|i: int| 0 <= i < h0.lab@.len() ==> #[trigger] this.heap.lab@[i] == h0.lab@[i],
loop 1 ensures:
    mid(*this, o), *this == (SimplexTree { heap: this.heap, weightEdgeGraph: this.weightEdgeGraph, nodeCount: this.nodeCount, ..t0 }),
    forall|x: Seq<u32>| #[trigger] this.heap.at@.dom().contains(x) <==> h0.at@.dom().contains(x) || added(g, m, s, x),
    forall|x: Seq<u32>| #[trigger] h0.at@.dom().contains(x) ==> this.heap.at@[x] == h0.at@[x], this.heap.lab@.len() >= h0.lab@.len(),
    forall|i: int| 0 <= i < h0.lab@.len() ==> #[trigger] this.heap.lab@[i] == h0.lab@[i],
loop 1 decreases:
    labp(h0, temp).last()
at loop1.begin:
    let ghost hb = this.heap; let ghost v = labp(h0, temp).last(); let ghost sv = s.push(v);
    proof { assert(sv.drop_last() =~= s); assert(sv.last() == v);
        assert(live(hb, temp)); assert(labp(hb, temp) == sv);
        assert forall|x: Seq<u32>| #[trigger] hb.at@.dom().contains(x) implies !added(g, m, sv, x) by { if added(g, m, sv, x) { lem_added_sub(g, m, s, v, x); } }
    }
at call.recurseInsert.1:
    proof { assert forall|x: Seq<u32>| #[trigger] h0.at@.dom().contains(x) implies this.heap.at@.dom().contains(x) && this.heap.at@[x] == h0.at@[x] by { assert(hb.at@.dom().contains(x)); }
        lem_live(this.heap, g, temp); lem_through(h0, this.heap, hb, g, m, s, v); lem_next(h0, this.heap, g, m, s, v, this.heap.nd(temp).sibling); }
at if.4.after:
    proof { if h0.nd(node).parent.v is None { lem_j_add(h0, this.heap, g, s, m); assert(mid(*this, o));
        assert forall|x: Seq<u32>| added(g, m, s, x) implies x == sm by { lem_added_split(g, m, s, x); } } }
@end

@fn st_insert
cxx: simplexTree::insert
file: Complex/simplexTree.cpp
self: mut SimplexTree
attrs: #[verifier::rlimit(60)]
requires:
    tree(*old(this)), old(this).runningVectorCount < MAXLEN - 2,
    old(this).distMatrix@.len() == 0 || old(this).runningVectorIndices@.len() < old(this).distMatrix@.len(),
ensures:
    old(this).distMatrix@.len() == 0 ==> *final(this) == *old(this),
    old(this).distMatrix@.len() > 0 ==> tree(*final(this)) && final(this).runningVectorIndices@.len() == old(this).runningVectorIndices@.len() + 1 && base(*final(this)) == base(*old(this)),
    final(this).distMatrix == old(this).distMatrix, final(this).maxEpsilon == old(this).maxEpsilon, final(this).maxDimension == old(this).maxDimension,
at entry:
    let ghost o = base(*this); let ghost g = geo(*this, o); let ghost m = this.indexCounter; let ghost mut h1 = this.heap; let ghost h0 = this.heap; let ghost n0 = this.runningVectorIndices@.len(); let ghost mut t1 = *this; let ghost mut v: u32 = o as u32; let ghost mut h2 = this.heap; let ghost mut h3 = this.heap; let ghost mut w2 = this.weightEdgeGraph@;
    let ghost e = Seq::<u32>::empty();
    proof { lem_one(g, m + 1, m); }
at if.2.before:
    proof {
        lem_j_alloc(h0, this.heap, g); h1 = this.heap; t1 = *this;
        assert(tempSet.s() =~= seq![m].to_set()) by { lem_tset(e, m); assert(e.to_set() =~= Set::<u32>::empty()); }
        assert(tempSet == cset_of(tempSet.s()));
        assert(mid(*this, o)) by { assert forall|x: Seq<u32>| #[trigger] this.heap.at@.dom().contains(x) implies simplex(g, m + 1, x) by { lem_final_dom(g, m, x); } }
    }
at return.2:
    proof {
        assert forall|x: Seq<u32>| !h0.at@.dom().contains(x) by { lem_no_simplex(g, m as int, x); }
        let t = seq![m]; let p = h0.nodes@.len() as int;
        this.heap.lab@ = h0.lab@.push(t); this.heap.at@ = h0.at@.insert(t, p);
        assert(h0.lab@.len() == h0.nodes@.len()) by { reveal(jj); }
        assert(h0.at@ =~= Map::<Seq<u32>, int>::empty());
        lem_j_first(this.heap, g, m, p);
        assert(h0.at@.insert(t, p).dom() =~= h0.at@.dom().insert(t));
        assert(this.weightEdgeGraph@[0]@ =~= seq![ent(g, t)]) by { assert(f64_of(0real) == this.weightEdgeGraph@[0]@[0].1); }
        lem_rep_add(t1.weightEdgeGraph@, this.weightEdgeGraph@, g, h0.at@.dom(), t);
        assert forall|x: Seq<u32>| #[trigger] this.heap.at@.dom().contains(x) <==> simplex(g, m + 1, x) by { lem_final_dom(g, m, x); lem_no_simplex(g, m as int, x); if fresh(g, m, x, m as int) { assert(g.o <= x[0]); } }
        assert(tree(*this));
    }
loop 1 except:
    mid(*this, o), *this == (SimplexTree { heap: this.heap, weightEdgeGraph: this.weightEdgeGraph, nodeCount: this.nodeCount, ..t1 }),
    o <= v < m, live(h1, temp), labp(h1, temp) == seq![v],
    forall|x: Seq<u32>| #[trigger] this.heap.at@.dom().contains(x) <==> h1.at@.dom().contains(x) || fresh(g, m, x, v as int),
    forall|x: Seq<u32>| #[trigger] h1.at@.dom().contains(x) ==> this.heap.at@[x] == h1.at@[x], this.heap.lab@.len() >= h1.lab@.len(),
    forall|i: int| 0 <= i < h1.lab@.len() ==> #[trigger] this.heap.lab@[i] == h1.lab@[i],
loop 1 ensures:
    mid(*this, o), *this == (SimplexTree { heap: this.heap, weightEdgeGraph: this.weightEdgeGraph, nodeCount: this.nodeCount, ..t1 }),
    forall|x: Seq<u32>| #[trigger] this.heap.at@.dom().contains(x) <==> h1.at@.dom().contains(x) || fresh(g, m, x, m as int),
    forall|x: Seq<u32>| #[trigger] h1.at@.dom().contains(x) ==> this.heap.at@[x] == h1.at@[x], this.heap.lab@.len() >= h1.lab@.len(),
    forall|i: int| 0 <= i < h1.lab@.len() ==> #[trigger] this.heap.lab@[i] == h1.lab@[i],
loop 1 decreases:
    m - v
at loop1.before:
    proof { let ou = o as u32; v = ou; lem_one(g, m as int, ou); lem_j(h1, g, seq![ou]); assert(labp(h1, temp) == seq![ou]);
        assert forall|x: Seq<u32>| !fresh(g, m, x, v as int) by { if fresh(g, m, x, v as int) { assert(g.o <= x[0]); } } }
at loop1.begin:
    let ghost hb = this.heap; let ghost vb = v;
    proof { lem_one(g, m as int, vb); assert(live(hb, temp)); assert(labp(hb, temp) == seq![vb]);
        assert forall|x: Seq<u32>| #[trigger] hb.at@.dom().contains(x) implies !added(g, m, seq![vb], x) by { lem_fresh(g, m, vb, x); if x.last() == m && h1.at@.dom().contains(x) { assert(x[x.len() - 1] == m); } } }
at call.recurseInsert.1:
    proof {
        assert forall|x: Seq<u32>| #[trigger] h1.at@.dom().contains(x) implies this.heap.at@.dom().contains(x) && this.heap.at@[x] == h1.at@[x] by { assert(hb.at@.dom().contains(x)); }
        assert forall|x: Seq<u32>| #[trigger] this.heap.at@.dom().contains(x) <==> h1.at@.dom().contains(x) || fresh(g, m, x, vb + 1) by { lem_fresh(g, m, vb, x); assert(hb.at@.dom().contains(x) <==> h1.at@.dom().contains(x) || fresh(g, m, x, vb as int)); }
        lem_live(this.heap, g, temp);
        lem_root_next(h1, this.heap, g, m, vb, this.heap.nd(temp).sibling);
        v = (vb + 1) as u32;
    }
at loop1.after:
    proof { h2 = this.heap; w2 = this.weightEdgeGraph@; lem_one(g, m as int, o as u32); assert(h2.at@.dom().contains(seq![o as u32])); assert(w2.len() > 0) by { reveal(rep); } }
at loop2.before:
    proof { lem_j_alloc(h2, this.heap, g); h3 = this.heap; lem_one(g, m as int, o as u32); lem_one(g, m + 1, m); lem_j(h3, g, seq![o as u32]);
        assert(!h3.at@.dom().contains(seq![m])) by { assert(!h1.at@.dom().contains(seq![m])); } assert(live(h3, temp)); assert(labp(h3, temp) == seq![o as u32]);
        assert forall|p: Ptr| #[trigger] live(h3, p) && labp(h3, p).len() == 1 implies root_sib(h3, g, m, p) by { lem_root_sib(h3, g, m, p); } }
loop 2 except:
    this.heap == h3, live(h3, temp), labp(h3, temp).len() == 1,
loop 2 ensures:
    this.heap == h3, live(h3, temp), labp(h3, temp) == seq![(m - 1) as u32],
loop 2 decreases:
    m - labp(h3, temp).last()
at return.3:
    proof {
        let t = seq![m]; let p = h2.nodes@.len() as int; let l = seq![(m - 1) as u32]; let pl = h3.at@[l];
        this.heap.lab@ = h2.lab@.push(t); this.heap.at@ = h2.at@.insert(t, p);
        lem_one(g, m as int, (m - 1) as u32);
        assert forall|u: u32| #[trigger] h2.at@.dom().contains(seq![u]) implies u < m by { lem_one(g, m + 1, u); assert(u != m); }
        assert forall|x: Seq<u32>| #[trigger] h2.at@.dom().contains(x) implies sorted_lt(x) && inc(x, g.o, m + 1) by { assert(simplex(g, m + 1, x)); }
        lem_j(h2, g, l); lem_j(h3, g, l);
        lem_j_root(h2, this.heap, g, m, pl);
        assert(this.weightEdgeGraph@[0]@ =~= w2[0]@.push(ent(g, t))) by { assert(f64_of(0real) == this.weightEdgeGraph@[0]@.last().1); }
        lem_rep_add(w2, this.weightEdgeGraph@, g, h2.at@.dom(), t);
        assert(h2.at@.insert(t, p).dom() =~= h2.at@.dom().insert(t));
        assert forall|x: Seq<u32>| #[trigger] this.heap.at@.dom().contains(x) <==> simplex(g, m + 1, x) by { lem_final_dom(g, m, x); }
        assert(tree(*this));
    }
@end

@fn st_vertex_count
cxx: simplexTree::vertexCount
file: Complex/simplexTree.cpp
self: ref SimplexTree
requires:
    tree(*this), this.runningVectorCount < MAXLEN,
ensures:
    ret == this.runningVectorIndices@.len(),
@end

@fn st_simplex_count
cxx: simplexTree::simplexCount
file: Complex/simplexTree.cpp
self: ref SimplexTree
requires:
    tree(*this),
ensures:
    ret == totn(this.weightEdgeGraph@, this.weightEdgeGraph@.len() as int),
@end

@fn st_dim_edges
cxx: simplexTree::getDimEdges
file: Complex/simplexTree.cpp
self: ref SimplexTree
params: d
ensures:
    !(0 <= d < this.weightEdgeGraph@.len()) ==> ret@.len() == 0,
    0 <= d < this.weightEdgeGraph@.len() ==> ret@.len() == this.weightEdgeGraph@[d as int]@.len() && forall|i: int| 0 <= i < ret@.len() ==> (#[trigger] ret@[i])@ == this.weightEdgeGraph@[d as int]@[i].0@,
loop 1 invariant:
    0 <= d < this.weightEdgeGraph@.len(), d == d_0, ret@.len() == $i, forall|i: int| 0 <= i < $i ==> (#[trigger] ret@[i])@ == this.weightEdgeGraph@[d as int]@[i].0@,
@end

@fn st_all_edges
cxx: simplexTree::getAllEdges
file: Complex/simplexTree.cpp
self: mut SimplexTree
params: epsilon
requires:
    tree(*old(this)),
ensures:
    tree(*final(this)), ret == final(this).weightEdgeGraph,
    ret@.len() == old(this).weightEdgeGraph@.len(), forall|k: int| 0 <= k < ret@.len() ==> perm(old(this).weightEdgeGraph@[k]@, #[trigger] ret@[k]@) && sorted_wt(ret@[k]@),
    *final(this) == (SimplexTree { weightEdgeGraph: final(this).weightEdgeGraph, isSorted: final(this).isSorted, ..*old(this) }),
at entry:
    let ghost t0 = *this; let ghost w = this.weightEdgeGraph@; let ghost g = geo(*this, base(*this));
    let ln = this.weightEdgeGraph.len();
loop 1 invariant:
    *this == (SimplexTree { weightEdgeGraph: this.weightEdgeGraph, ..t0 }), this.weightEdgeGraph@.len() == w.len(), 0 <= i <= w.len() == ln,
    forall|k: int| 0 <= k < i ==> perm(w[k]@, #[trigger] this.weightEdgeGraph@[k]@) && this.weightEdgeGraph@[k]@.len() == w[k]@.len() && sorted_wt(this.weightEdgeGraph@[k]@),
    forall|k: int| i <= k < w.len() ==> #[trigger] this.weightEdgeGraph@[k] == w[k],
loop 1 decreases:
    ln - i
at return:
    proof { assert forall|k: int| 0 <= k < w.len() implies perm(w[k]@, #[trigger] this.weightEdgeGraph@[k]@) && this.weightEdgeGraph@[k]@.len() == w[k]@.len() by { if t0.isSorted { assert(this.weightEdgeGraph@[k] == w[k]); } }
        lem_rep_sort(w, this.weightEdgeGraph@, g, this.heap.at@.dom()); }
@end

@fn st_delete_node
cxx: simplexTree::deletion
file: Complex/simplexTree.cpp
sig: treeNode *
self: mut SimplexTree
params: removalEntry
requires:
    tree(*old(this)), live(old(this).heap, removalEntry), labp(old(this).heap, removalEntry).len() == 1,
ensures:
    *final(this) == (SimplexTree { heap: final(this).heap, nodeCount: final(this).nodeCount, ..*old(this) }),
    final(this).heap == (THeap { freed: final(this).heap.freed, ..old(this).heap }),
    final(this).nodeCount == old(this).nodeCount - (old(this).runningVectorCount - labp(old(this).heap, removalEntry).last()),
    forall|x: Seq<u32>| #[trigger] old(this).heap.at@.dom().contains(x) && x.last() < labp(old(this).heap, removalEntry).last() ==> !final(this).heap.freed@.contains(old(this).heap.at@[x]),
decreases:
    old(this).runningVectorCount - labp(old(this).heap, removalEntry).last()
at entry:
    let ghost t0 = *this; let ghost mut t1 = *this; let ghost h0 = this.heap; let ghost g = geo(*this, base(*this)); let ghost m = this.runningVectorCount as u32; let ghost x0 = labp(h0, removalEntry);
    proof { lem_totn_nonneg(t0.weightEdgeGraph@, t0.weightEdgeGraph@.len() as int); lem_live(h0, g, removalEntry); lem_one(g, m as int, m); lem_root_sib(h0, g, m, removalEntry); assert forall|x: Seq<u32>| #[trigger] h0.at@.dom().contains(x) implies h0.lab@[h0.at@[x]] == x && !h0.freed@.contains(h0.at@[x]) by { lem_j(h0, g, x); } }
loop 1 invariant:
    curNode == removalEntry, *this == t0,
loop 1 decreases:
    0int
loop 2 invariant:
    curNode == removalEntry, *this == t1, deletionCount == 0,
loop 2 decreases:
    0int
at loop2.before:
    proof { t1 = *this; }
@end

@fn st_clear
cxx: simplexTree::clear
file: Complex/simplexTree.cpp
self: mut SimplexTree
requires:
    tree(*old(this)),
ensures:
    tree(*final(this)), final(this).runningVectorIndices@.len() == 0, final(this).nodeCount == 0, final(this).weightEdgeGraph@.len() == 0,
    final(this).distMatrix == old(this).distMatrix, final(this).maxEpsilon == old(this).maxEpsilon, final(this).maxDimension == old(this).maxDimension, final(this).runningVectorCount == 0,
at entry:
    let ghost t0 = *this; let ghost h0 = this.heap; let ghost o = base(*this); let ghost g0 = geo(*this, o);
    proof { lem_one(g0, this.runningVectorCount as int, o as u32); if this.runningVectorIndices@.len() > 0 { lem_j(h0, g0, seq![o as u32]); assert(h0.nodes@.len() <= MAXLEN) by { reveal(jj); } assert(live(h0, this.head)); assert(labp(h0, this.head) == seq![o as u32]); } }
at exit:
    proof { let g = geo(*this, base(*this)); this.heap.at@ = Map::<Seq<u32>, int>::empty();
        assert(h0.lab@.len() == h0.nodes@.len() <= MAXLEN) by { reveal(jj); }
        lem_empty_tree(this.heap, g, this.weightEdgeGraph@); assert forall|x: Seq<u32>| !simplex(g, this.runningVectorCount as int, x) by { lem_no_simplex(g, this.runningVectorCount as int, x); } }
@end
