@fn al_find
cxx: simplexArrayList::find
file: Complex/simplexArrayList.cpp
sig: std::vector<unsigned int>
self: ref SimplexArrayList
params: vector
requires:
    vector@.len() >= 1,
ensures:
    ret == stored(this.weightedGraph@, vector),
loop 1 invariant:
    this.weightedGraph@.len() >= vector@.len() >= 1, vector == vector_0, ln <= MAXLEN, ln == this.weightedGraph@[vector@.len() - 1]@.len(),
    0 <= v <= ln, forall|m: int| 0 <= m < v ==> (#[trigger] this.weightedGraph@[vector@.len() - 1]@[m]).0 != vector,
loop 1 decreases: this.weightedGraph@[vector@.len() - 1]@.len() - v
at loop1.before:
    let ln = (*this.weightedGraph.at(vector.len() - 1)).len();
at return.1:
    proof { if ret_ { assert(at_key(this.weightedGraph@[vector@.len() - 1]@, vector, v as int)); } }
@end

@fn al_find_weight
cxx: simplexArrayList::findWeight
file: Complex/simplexArrayList.cpp
sig: std::vector<unsigned int>
self: ref SimplexArrayList
params: vector
requires:
    1 <= vector@.len() <= this.weightedGraph@.len(),
ensures:
    !stored(this.weightedGraph@, vector) ==> ret@ == -1real,
    stored(this.weightedGraph@, vector) ==> exists|k: int| #[trigger] first_key(this.weightedGraph@[vector@.len() - 1]@, vector, k) && ret == this.weightedGraph@[vector@.len() - 1]@[k].1,
loop 1 invariant:
    1 <= vector@.len() <= this.weightedGraph@.len(), vector == vector_0, ln <= MAXLEN, ln == this.weightedGraph@[vector@.len() - 1]@.len(),
    0 <= v <= ln, forall|m: int| 0 <= m < v ==> (#[trigger] this.weightedGraph@[vector@.len() - 1]@[m]).0 != vector,
loop 1 decreases: this.weightedGraph@[vector@.len() - 1]@.len() - v
at loop1.before:
    let ln = (*this.weightedGraph.at(vector.len() - 1)).len();
at return.1:
    proof { if v < ln { assert(first_key(this.weightedGraph@[vector@.len() - 1]@, vector, v as int)); } }
@end

@fn al_simplex_count
cxx: simplexArrayList::simplexCount
file: Complex/simplexArrayList.cpp
sig:
self: ref SimplexArrayList
requires:
    total(this.weightedGraph@) <= 0x7fff_ffff,
ensures:
    ret == total(this.weightedGraph@),
loop 1 invariant:
    simplexRet == count_upto(this.weightedGraph@, $i as int), total(this.weightedGraph@) <= 0x7fff_ffff,
at loop1.begin:
    proof { lem_count_mono(this.weightedGraph@, $i + 1, this.weightedGraph@.len() as int); lem_count_mono(this.weightedGraph@, 0, $i as int); }
@end

@fn al_vertex_count
cxx: simplexArrayList::vertexCount
file: Complex/simplexArrayList.cpp
sig:
self: ref SimplexArrayList
ensures:
    ret == (if this.weightedGraph@.len() == 0 { 0 } else { this.weightedGraph@[0]@.len() }),
@end

@fn al_dim_edges
cxx: simplexArrayList::getDimEdges
file: Complex/simplexArrayList.cpp
sig: int; double
self: ref SimplexArrayList
params: dim epsilon
requires:
    dim > -0x8000_0000,
    1 <= dim <= this.weightedGraph@.len() ==> forall|k: int| 0 <= k < this.weightedGraph@[dim - 1]@.len() ==> verts_in(this.distMatrix@, (#[trigger] this.weightedGraph@[dim - 1]@[k]).0@),
ensures:
    dim < 1 || this.weightedGraph@.len() < dim ==> ret@.len() == 0,
    1 <= dim <= this.weightedGraph@.len() ==> ret@ == within(this.weightedGraph@[dim - 1]@, this.distMatrix@, epsilon@, this.weightedGraph@[dim - 1]@.len() as int),
loop 1 invariant:
    ret@ == within(L, this.distMatrix@, epsilon@, $i as int),
loop 2 invariant:
    0 <= i <= n2 <= MAXLEN, n2 == a.0@.len(), verts_in(this.distMatrix@, a.0@),
    isTrue == (forall|p: int, q: int| #![trigger a.0@[p], a.0@[q]] 0 <= p < i && p < q < n2 ==> dm(this.distMatrix@, a.0@[p], a.0@[q]) <= epsilon@),
loop 2 decreases: n2 - i
loop 3 invariant:
    0 <= i < n2, i + 1 <= j <= n2, n2 <= MAXLEN, n2 == a.0@.len(), verts_in(this.distMatrix@, a.0@),
    isTrue == (forall|p: int, q: int| #![trigger a.0@[p], a.0@[q]] 0 <= p < q < n2 && (p < i || (p == i && q < j)) ==> dm(this.distMatrix@, a.0@[p], a.0@[q]) <= epsilon@),
loop 3 ensures:
    isTrue == (forall|p: int, q: int| #![trigger a.0@[p], a.0@[q]] 0 <= p < i + 1 && p < q < n2 ==> dm(this.distMatrix@, a.0@[p], a.0@[q]) <= epsilon@),
loop 3 decreases: n2 - j
at loop1.before:
    let ghost L = this.weightedGraph@[dim - 1]@;
at loop2.before:
    let n2 = a.0.len();
at loop3.begin:
    assert(dm_in(this.distMatrix@, a.0@[i as int], a.0@[j as int]));
@end

@fn al_all_edges
cxx: simplexArrayList::getAllEdges
file: Complex/simplexArrayList.cpp
sig: double
self: ref SimplexArrayList
params: epsilon
ensures:
    ret@.len() == nonempty(this.weightedGraph@, this.weightedGraph@.len() as int).len(),
    forall|k: int| 0 <= k < ret@.len() ==> listing(nonempty(this.weightedGraph@, this.weightedGraph@.len() as int)[k]@, (#[trigger] ret@[k])@),
loop 1 invariant:
    ret@.len() == nonempty(this.weightedGraph@, $i as int).len(),
    forall|k: int| 0 <= k < ret@.len() ==> listing(nonempty(this.weightedGraph@, $i as int)[k]@, (#[trigger] ret@[k])@),
loop 2 invariant:
    dimGraph@ == as_sets(dim@, $i as int),
at loop2.end:
    proof {
        assert(dim@[edge_i as int] == edge);
        assert(edge.0@.subrange(0, edge.0@.len() as int) =~= edge.0@); assert(cset_of(curSet.s()) == curSet); assert(curSet.s() =~= edge.0@.to_set());
    }
at loop2.after:
    proof { lem_as_sets_len(dim@, dim@.len() as int); }
@end

@fn al_delete
cxx: simplexArrayList::deletion
file: Complex/simplexArrayList.cpp
sig: std::vector<unsigned int>
self: mut SimplexArrayList
params: vector
requires:
    1 <= vector@.len() <= old(this).weightedGraph@.len(),
ensures:
    ret == stored(old(this).weightedGraph@, vector),
    !ret ==> *final(this) == *old(this),
    ret ==> exists|k: int| #[trigger] first_key(old(this).weightedGraph@[vector@.len() - 1]@, vector, k)
        && final(this).weightedGraph@ == old(this).weightedGraph@.update(vector@.len() - 1, cvec_of(old(this).weightedGraph@[vector@.len() - 1]@.remove(k))),
    *final(this) == (SimplexArrayList { weightedGraph: final(this).weightedGraph, ..*old(this) }),
loop 1 invariant:
    1 <= vector@.len() <= this.weightedGraph@.len(), vector == vector_0, *this == *old(this), ln <= MAXLEN, ln == this.weightedGraph@[vector@.len() - 1]@.len(),
    0 <= v <= ln, forall|m: int| 0 <= m < v ==> (#[trigger] this.weightedGraph@[vector@.len() - 1]@[m]).0 != vector,
loop 1 decreases: this.weightedGraph@[vector@.len() - 1]@.len() - v
at loop1.before:
    let ln = (*this.weightedGraph.at(vector.len() - 1)).len();
at return.1:
    proof { if ret_ { assert(first_key(old(this).weightedGraph@[vector@.len() - 1]@, vector, v as int));
        let d = vector@.len() - 1;
        assert(this.weightedGraph@ =~= old(this).weightedGraph@.update(d, cvec_of(old(this).weightedGraph@[d]@.remove(v as int)))) by { assert(cvec_of(this.weightedGraph@[d]@) == this.weightedGraph@[d]); } } }
@end

@fn al_clear
cxx: simplexArrayList::clear
file: Complex/simplexArrayList.cpp
sig:
self: mut SimplexArrayList
ensures:
    final(this).weightedGraph@.len() == 0,
    *final(this) == (SimplexArrayList { weightedGraph: final(this).weightedGraph, ..*old(this) }),
loop 1 invariant:
    *this == *old(this),
@end
