@fn mc_new
cxx: microCluster::microCluster
file: Preprocessing/denStream.cpp
sig: int; int; double
self: ctor MicroCluster
params: t dim l
requires:
    0 <= dim <= MAXLEN,
ensures:
    ret.center@.len() == dim, ret.avgSquares@.len() == dim, ret.weight@ == 0real, ret.lambda@ == l@, ret.creationTime == t, ret.editTime == 0,
@end

@fn mc_insert
cxx: microCluster::insertPoint
file: Preprocessing/denStream.cpp
self: mut MicroCluster
params: point timestamp
requires:
    mc_wf(*old(this), point@.len() as int, timestamp as int),
ensures:
    mc_ins(*old(this), *final(this), point@, timestamp as int), mc_wf(*final(this), point@.len() as int, timestamp as int),
at entry:
    let ghost a = *this;
    let ghost n = point@.len() as int;
    let ghost w = decayed(a, timestamp as int);
    proof { lem_decayed(a, timestamp as int); }
    let ln = point.len();
loop 1 invariant:
    this.center@.len() == n, this.avgSquares@.len() == n, 0 <= i <= n, n <= MAXLEN, point@.len() == n, this.weight == a.weight, this.lambda == a.lambda, this.editTime == a.editTime, this.creationTime == a.creationTime,
    this.center@ == point@, point@ == point_0@, forall|j: int| 0 <= j < i ==> (#[trigger] this.avgSquares@[j])@ == point@[j]@ * point@[j]@,
loop 1 decreases: n - i
at loop1.after:
    proof {
        assert forall|j: int| 0 <= j < n implies (#[trigger] this.center@[j])@ == mc_center(a, point@, timestamp as int, j) by { lem_wmean(w, a.center@[j]@, point@[j]@); }
        assert forall|j: int| 0 <= j < n implies (#[trigger] this.avgSquares@[j])@ == mc_square(a, point@, timestamp as int, j) by { lem_wmean(w, a.avgSquares@[j]@, point@[j]@ * point@[j]@); }
    }
loop 2 invariant:
    this.center@.len() == n, this.avgSquares@.len() == n, 0 <= i <= n, n <= MAXLEN, point@.len() == n, this.weight == a.weight, this.lambda == a.lambda, this.editTime == a.editTime, this.creationTime == a.creationTime,
    newWeight@ == w + 1real, w >= 0real, w == decayed(a, timestamp as int), point@ == point_0@,
    forall|j: int| 0 <= j < i ==> (#[trigger] this.center@[j])@ == mc_center(a, point@, timestamp as int, j),
    forall|j: int| 0 <= j < i ==> (#[trigger] this.avgSquares@[j])@ == mc_square(a, point@, timestamp as int, j),
    forall|j: int| i <= j < n ==> (#[trigger] this.center@[j]) == a.center@[j], forall|j: int| i <= j < n ==> (#[trigger] this.avgSquares@[j]) == a.avgSquares@[j],
loop 2 decreases: n - i
at loop2.begin:
    proof { lem_wmean(w, a.center@[i as int]@, point@[i as int]@); lem_wmean(w, a.avgSquares@[i as int]@, point@[i as int]@ * point@[i as int]@); }
@end

@fn mc_get_center
cxx: microCluster::getCenter
file: Preprocessing/denStream.cpp
self: ref MicroCluster
params:
ensures:
    ret == this.center,
@end

@fn mc_get_creation
cxx: microCluster::getCreationTime
file: Preprocessing/denStream.cpp
self: ref MicroCluster
params:
ensures:
    ret == this.creationTime,
@end

@fn mc_get_weight
cxx: microCluster::getWeight
file: Preprocessing/denStream.cpp
self: ref MicroCluster
params: timestamp
requires:
    -0x4000_0000 <= this.editTime <= 0x4000_0000, -0x4000_0000 <= timestamp <= 0x3fff_ffff,
ensures:
    ret@ == decayed(*this, timestamp as int),
@end

@fn mc_get_radius
cxx: microCluster::getRadius
file: Preprocessing/denStream.cpp
self: ref MicroCluster
params:
requires:
    this.center@.len() == this.avgSquares@.len(), this.center@.len() <= MAXLEN,
ensures:
    ret@ == mc_radius(*this),
at entry:
    let ln = this.center.len();
loop 1 invariant:
    0 <= i <= this.center@.len(), this.center@.len() == this.avgSquares@.len(), this.center@.len() <= MAXLEN, r2@ == mc_r2(*this, i as int),
loop 1 decreases: this.center@.len() - i
@end

@fn mc_merge_radius
cxx: microCluster::mergeRadius
file: Preprocessing/denStream.cpp
self: ref MicroCluster
params: point timestamp
requires:
    mc_wf(*this, point@.len() as int, timestamp as int),
ensures:
    ret@ == mc_merged(*this, point@, timestamp as int),
    forall|b: MicroCluster| #[trigger] mc_ins(*this, b, point@, timestamp as int) ==> ret@ == mc_radius(b),
at entry:
    let ghost w = decayed(*this, timestamp as int);
    proof { lem_decayed(*this, timestamp as int); }
loop 1 invariant:
    0 <= i <= this.center@.len(), mc_wf(*this, point@.len() as int, timestamp as int), r2@ == mc_m2(*this, point@, timestamp as int, i as int), newWeight@ == w + 1real, w >= 0real, w == decayed(*this, timestamp as int), point@ == point_0@,
loop 1 decreases: this.center@.len() - i
at loop1.begin:
    proof { lem_wmean(w, this.center@[i as int]@, point@[i as int]@); lem_wmean(w, this.avgSquares@[i as int]@, point@[i as int]@ * point@[i as int]@); }
at return.1:
    proof { assert forall|b: MicroCluster| #[trigger] mc_ins(*this, b, point@, timestamp as int) implies ret_@ == mc_radius(b) by { lem_merged(*this, b, point@, timestamp as int, point@.len() as int); } }
@end

@fn ds_nearest_p
cxx: denStream::nearestPCluster
file: Preprocessing/denStream.cpp
self: ref DenStream
params: point
requires:
    this.pMicroClusters@.len() > 0, forall|i: int| 0 <= i < this.pMicroClusters@.len() ==> (#[trigger] this.pMicroClusters@[i]).center@.len() == point@.len(),
ensures:
    mc_nearest(this.pMicroClusters@, point@, ret as int),
at entry:
    let ghost s = this.pMicroClusters@;
    let ln = this.pMicroClusters.len();
loop 1 invariant:
    s == this.pMicroClusters@, 1 <= i <= s.len() <= MAXLEN, 0 <= min < i, minDist@ == dist(s[min as int].center@, point@), forall|x: int| 0 <= x < i ==> minDist@ <= dist((#[trigger] s[x]).center@, point@),
    forall|i: int| 0 <= i < s.len() ==> (#[trigger] s[i]).center@.len() == point@.len(), point@ == point_0@,
loop 1 decreases: s.len() - i
@end

@fn ds_nearest_o
cxx: denStream::nearestOCluster
file: Preprocessing/denStream.cpp
self: ref DenStream
params: point
requires:
    this.oMicroClusters@.len() > 0, forall|i: int| 0 <= i < this.oMicroClusters@.len() ==> (#[trigger] this.oMicroClusters@[i]).center@.len() == point@.len(),
ensures:
    mc_nearest(this.oMicroClusters@, point@, ret as int),
at entry:
    let ghost s = this.oMicroClusters@;
    let ln = this.oMicroClusters.len();
loop 1 invariant:
    s == this.oMicroClusters@, 1 <= i <= s.len() <= MAXLEN, 0 <= min < i, minDist@ == dist(s[min as int].center@, point@), forall|x: int| 0 <= x < i ==> minDist@ <= dist((#[trigger] s[x]).center@, point@),
    forall|i: int| 0 <= i < s.len() ==> (#[trigger] s[i]).center@.len() == point@.len(), point@ == point_0@,
loop 1 decreases: s.len() - i
@end

@fn ds_merging
cxx: denStream::merging
file: Preprocessing/denStream.cpp
self: mut DenStream
params: data p timestamp
constref: data
requires:
    0 <= p < data@.len(), data@[p as int]@.len() == data@[0]@.len(), data@[0]@.len() <= MAXLEN, -0x4000_0000 <= timestamp <= 0x3fff_ffff,
    all_wf(old(this).pMicroClusters@, data@[0]@.len() as int, timestamp as int), all_wf(old(this).oMicroClusters@, data@[0]@.len() as int, timestamp as int),
ensures:
    merge_p(old(this).pMicroClusters@, old(this).oMicroClusters@, final(this).pMicroClusters@, final(this).oMicroClusters@, data@[p as int]@, timestamp as int, old(this).epsilon@)
    || merge_o(old(this).pMicroClusters@, old(this).oMicroClusters@, final(this).pMicroClusters@, final(this).oMicroClusters@, data@[p as int]@, timestamp as int, old(this).epsilon@, old(this).beta@ * (old(this).mu as int as real))
    || merge_n(old(this).pMicroClusters@, old(this).oMicroClusters@, final(this).pMicroClusters@, final(this).oMicroClusters@, data@[p as int]@, timestamp as int, old(this).epsilon@, old(this).lambda@),
    all_wf(final(this).pMicroClusters@, data@[0]@.len() as int, timestamp as int), all_wf(final(this).oMicroClusters@, data@[0]@.len() as int, timestamp as int),
    final(this).epsilon == old(this).epsilon, final(this).lambda == old(this).lambda, final(this).beta == old(this).beta, final(this).mu == old(this).mu,
at entry:
    let ghost p0 = this.pMicroClusters@;
    let ghost o0 = this.oMicroClusters@;
    let ghost pt = data@[p as int]@;
    let ghost t = timestamp as int;
    let ghost dim = data@[0]@.len() as int;
    proof { assert(forall|i: int| 0 <= i < p0.len() ==> (#[trigger] p0[i]).center@.len() == dim) by { assert forall|i: int| 0 <= i < p0.len() implies (#[trigger] p0[i]).center@.len() == dim by { assert(mc_wf(p0[i], dim, t)); } };
        assert(forall|i: int| 0 <= i < o0.len() ==> (#[trigger] o0[i]).center@.len() == dim) by { assert forall|i: int| 0 <= i < o0.len() implies (#[trigger] o0[i]).center@.len() == dim by { assert(mc_wf(o0[i], dim, t)); } } }
    let ghost eps = this.epsilon@;
    let ghost lim = this.beta@ * (this.mu as int as real);
    let ghost mut np = -1int;
    let ghost mut no = -1int;
at if.2.before:
    proof { np = nearestP as int; assert(mc_nearest(p0, pt, np)); assert(mc_wf(p0[np], dim, t)); }
at if.2.then:
    proof { assert(mc_takes(p0, pt, t, eps, np)); }
at if.2.else:
    proof { assert(mc_merged(p0[np], pt, t) > eps); }
at return.1:
    proof {
        let c = this.pMicroClusters@[np];
        assert(mc_ins(p0[np], c, pt, t)); assert(this.pMicroClusters@ =~= p0.update(np, c)); assert(this.oMicroClusters@ == o0);
        assert(merge_p(p0, o0, this.pMicroClusters@, this.oMicroClusters@, pt, t, eps));
    }
at if.1.after:
    proof { assert(mc_refuse(p0, pt, t, eps)); }
at if.4.before:
    proof { no = nearestO as int; assert(mc_nearest(o0, pt, no)); assert(mc_wf(o0[no], dim, t)); }
at if.4.then:
    proof { assert(mc_takes(o0, pt, t, eps, no)); }
at if.5.before:
    let ghost c5 = this.oMicroClusters@[no];
    let ghost o5 = this.oMicroClusters@;
    proof { assert(mc_ins(o0[no], c5, pt, t)); assert(this.oMicroClusters@ =~= o0.update(no, c5)); }
at return.2:
    proof {
        if decayed(c5, t) > lim {
            assert(this.pMicroClusters@ =~= p0.push(c5)); assert(o5.remove(no) =~= o0.remove(no)); assert(this.oMicroClusters@ =~= o0.remove(no));
            assert forall|i: int| 0 <= i < p0.len() + 1 implies mc_wf(#[trigger] this.pMicroClusters@[i], dim, t) by { if i < p0.len() { assert(mc_wf(p0[i], dim, t)); } }
            assert forall|i: int| 0 <= i < o0.len() - 1 implies mc_wf(#[trigger] this.oMicroClusters@[i], dim, t) by { if i < no { assert(mc_wf(o0[i], dim, t)); } else { assert(mc_wf(o0[i + 1], dim, t)); } }
        } else { assert(this.oMicroClusters@ =~= o0.update(no, c5)); }
        assert(merge_o(p0, o0, this.pMicroClusters@, this.oMicroClusters@, pt, t, eps, lim));
    }
at if.4.else:
    proof { assert(mc_merged(o0[no], pt, t) > eps); }
at if.3.after:
    proof { assert(mc_refuse(o0, pt, t, eps)); }
at decl.x:
    let ghost x0 = x;
    proof { lem_decayed(x0, t); }
at call.push_back.2:
    proof {
        assert(mc_ins(x0, x, pt, t));
        assert forall|i: int| 0 <= i < pt.len() implies (#[trigger] x.center@[i])@ == pt[i]@ by { lem_wmean(0real, x0.center@[i]@, pt[i]@); }
        assert forall|i: int| 0 <= i < pt.len() implies (#[trigger] x.avgSquares@[i])@ == pt[i]@ * pt[i]@ by { lem_wmean(0real, x0.avgSquares@[i]@, pt[i]@ * pt[i]@); }
        assert(mc_fresh(x, pt, t, this.lambda@));
        assert(this.oMicroClusters@ =~= o0.push(x));
        assert(merge_n(p0, o0, this.pMicroClusters@, this.oMicroClusters@, pt, t, eps, this.lambda@));
    }
@end
