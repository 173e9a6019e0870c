// Model of the part of the C++ standard library used by the extracted functions.
// Everything marked external_body in this file is trusted (listed in the evidence).
use vstd::prelude::*;
use vstd::seq_lib::*;
use vstd::set_lib::*;
use vstd::multiset::*;
verus! {
global size_of usize == 8;

// ------------------------------------------------------------------ order
pub uninterp spec fn cless<T>(a: T, b: T) -> bool;
pub broadcast axiom fn ax_less_u32(a: u32, b: u32) ensures #[trigger] cless::<u32>(a,b) == (a < b);
pub broadcast axiom fn ax_less_i32(a: i32, b: i32) ensures #[trigger] cless::<i32>(a,b) == (a < b);
pub broadcast axiom fn ax_less_f64(a: F64, b: F64) ensures #[trigger] cless::<F64>(a,b) == (a@ < b@);
pub open spec fn sorted_le<T>(s: Seq<T>) -> bool { forall|i:int,j:int| #![trigger s[i], s[j]] 0<=i<j<s.len() ==> !cless(s[j],s[i]) }
pub open spec fn sorted_lt<T>(s: Seq<T>) -> bool { forall|i:int,j:int| #![trigger s[i], s[j]] 0<=i<j<s.len() ==> cless(s[i],s[j]) }
pub open spec fn dupfree<T>(s: Seq<T>) -> bool { forall|i:int,j:int| #![trigger s[i], s[j]] 0<=i<j<s.len() ==> s[i] != s[j] }
pub open spec fn perm<T>(a: Seq<T>, b: Seq<T>) -> bool { a.to_multiset() =~= b.to_multiset() }

// ------------------------------------------------------------------ double, modelled as a real number
#[verifier::external_body]
#[derive(Clone, Copy)]
pub struct F64 { v: f64 }
impl F64 { pub uninterp spec fn view(&self) -> real; }
pub uninterp spec fn f64_of(r: real) -> F64;
pub broadcast axiom fn ax_f64_inj(a: F64) ensures f64_of(#[trigger] a.view()) == a;
pub broadcast axiom fn ax_f64_mk(r: real) ensures (#[trigger] f64_of(r)).view() == r;
pub uninterp spec fn rpow(a: real, b: real) -> real;
pub uninterp spec fn rsqrt(a: real) -> real;
pub broadcast axiom fn ax_rpow2(a: real) ensures #[trigger] rpow(a, 2real) == a * a;
pub broadcast axiom fn ax_rsqrt(a: real) ensures a >= 0real ==> (#[trigger] rsqrt(a) >= 0real && rsqrt(a) * rsqrt(a) == a);
pub open spec fn rabs(a: real) -> real { if a < 0real { -a } else { a } }

pub uninterp spec fn dbl_max() -> real;
#[verifier::external_body] pub fn f_dbl_max() -> (r: F64) ensures r@ == dbl_max(), r@ > 0real { unimplemented!() }
/// signed division and remainder truncate towards zero
pub open spec fn tdiv(a: int, b: int) -> int { if a >= 0 { if b > 0 { a / b } else { -(a / (-b)) } } else { if b > 0 { -((-a) / b) } else { (-a) / (-b) } } }
#[verifier::external_body] pub fn sdiv_i32(a: i32, b: i32) -> (r: i32) requires b != 0, !(a == i32::MIN && b == -1) ensures r == tdiv(a as int, b as int) { unimplemented!() }
#[verifier::external_body] pub fn srem_i32(a: i32, b: i32) -> (r: i32) requires b != 0, !(a == i32::MIN && b == -1) ensures r == a - b * tdiv(a as int, b as int) { unimplemented!() }
#[verifier::external_body] pub fn sdiv_i64(a: i64, b: i64) -> (r: i64) requires b != 0, !(a == i64::MIN && b == -1) ensures r == tdiv(a as int, b as int) { unimplemented!() }
#[verifier::external_body] pub fn srem_i64(a: i64, b: i64) -> (r: i64) requires b != 0, !(a == i64::MIN && b == -1) ensures r == a - b * tdiv(a as int, b as int) { unimplemented!() }
/// random sources: any value of the range
#[verifier::external_body] pub fn arb_in_usize(a: usize, b: usize) -> (r: usize) requires a <= b ensures a <= r <= b { unimplemented!() }
#[verifier::external_body] pub fn arb_in_i32(a: i32, b: i32) -> (r: i32) requires a <= b ensures a <= r <= b { unimplemented!() }
#[verifier::external_body] pub fn rand_i32() -> (r: i32) ensures r >= 0 { unimplemented!() }
#[verifier::external_body] pub fn f_zero() -> (r: F64) ensures r@ == 0real { unimplemented!() }
#[verifier::external_body] pub fn f_of_int(x: i64) -> (r: F64) ensures r@ == x as int as real { unimplemented!() }
#[verifier::external_body] pub fn f_of_u64(x: u64) -> (r: F64) ensures r@ == x as int as real { unimplemented!() }
#[verifier::external_body] pub fn f_rat(p: i64, q: i64) -> (r: F64) ensures r@ == (p as int as real) / (q as int as real) { unimplemented!() }
#[verifier::external_body] pub fn f_add(a: F64, b: F64) -> (r: F64) ensures r@ == a@ + b@ { unimplemented!() }
#[verifier::external_body] pub fn f_sub(a: F64, b: F64) -> (r: F64) ensures r@ == a@ - b@ { unimplemented!() }
#[verifier::external_body] pub fn f_mul(a: F64, b: F64) -> (r: F64) ensures r@ == a@ * b@ { unimplemented!() }
#[verifier::external_body] pub fn f_div(a: F64, b: F64) -> (r: F64) ensures b@ != 0real ==> r@ == a@ / b@ { unimplemented!() }
#[verifier::external_body] pub fn f_neg(a: F64) -> (r: F64) ensures r@ == -a@ { unimplemented!() }
#[verifier::external_body] pub fn f_abs(a: F64) -> (r: F64) ensures r@ == rabs(a@) { unimplemented!() }
#[verifier::external_body] pub fn f_pow(a: F64, b: F64) -> (r: F64) ensures r@ == rpow(a@, b@) { unimplemented!() }
#[verifier::external_body] pub fn f_sqrt(a: F64) -> (r: F64) ensures r@ == rsqrt(a@) { unimplemented!() }
#[verifier::external_body] pub fn f_max(a: F64, b: F64) -> (r: F64) ensures r@ == (if a@ < b@ { b@ } else { a@ }) { unimplemented!() }
#[verifier::external_body] pub fn f_min(a: F64, b: F64) -> (r: F64) ensures r@ == (if b@ < a@ { b@ } else { a@ }) { unimplemented!() }
#[verifier::external_body] pub fn f_eq(a: F64, b: F64) -> (r: bool) ensures r == (a@ == b@) { unimplemented!() }
#[verifier::external_body] pub fn f_lt(a: F64, b: F64) -> (r: bool) ensures r == (a@ < b@) { unimplemented!() }
#[verifier::external_body] pub fn f_gt(a: F64, b: F64) -> (r: bool) ensures r == (a@ > b@) { unimplemented!() }
#[verifier::external_body] pub fn f_le(a: F64, b: F64) -> (r: bool) ensures r == (a@ <= b@) { unimplemented!() }
#[verifier::external_body] pub fn f_ge(a: F64, b: F64) -> (r: bool) ensures r == (a@ >= b@) { unimplemented!() }
#[verifier::external_body] pub fn arb_f64() -> (r: F64) { unimplemented!() }
#[verifier::external_body] pub fn arb_u32() -> (r: u32) { unimplemented!() }
#[verifier::external_body] pub fn arb_i32() -> (r: i32) { unimplemented!() }
#[verifier::external_body] pub fn arb_usize() -> (r: usize) { unimplemented!() }
#[verifier::external_body] pub fn arb_bool() -> (r: bool) { unimplemented!() }
pub open spec fn rsum(s: Seq<F64>, z: real) -> real decreases s.len()
{ if s.len() == 0 { z } else { rsum(s.drop_last(), z) + s.last()@ } }
#[verifier::external_body] pub fn f_accumulate(v: &CVec<F64>, z: F64) -> (r: F64) ensures r@ == rsum(v@, z@) { unimplemented!() }
#[verifier::external_body] pub fn f_trunc_i32(a: F64) -> (r: i32) ensures -2147483648real < a@ < 2147483647real ==> ((r as int as real <= rabs(a@) < (r as int + 1) as real && a@ >= 0real) || ((-(r as int)) as real <= rabs(a@) < (-(r as int) + 1) as real && a@ < 0real)) { unimplemented!() }
#[verifier::external_body] pub fn f_trunc_u32(a: F64) -> (r: u32) ensures 0real <= a@ < 4294967295real ==> (r as int as real <= a@ < (r as int + 1) as real) { unimplemented!() }

// ------------------------------------------------------------------ machine integers
pub const I32_MAX: i32 = 2147483647;
macro_rules! wrapops { ($t:ident, $add:ident, $sub:ident, $mul:ident, $m:expr) => { verus!{
#[verifier::external_body] pub fn $add(a: $t, b: $t) -> (r: $t) ensures r as int == (if a + b >= $m { a + b - $m } else { a + b }) { a.wrapping_add(b) }
#[verifier::external_body] pub fn $sub(a: $t, b: $t) -> (r: $t) ensures r as int == (if a < b { a - b + $m } else { a - b }) { a.wrapping_sub(b) }
#[verifier::external_body] pub fn $mul(a: $t, b: $t) -> (r: $t) ensures a * b < $m ==> r as int == a * b { a.wrapping_mul(b) }
}}}
wrapops!(u32, wadd_u32, wsub_u32, wmul_u32, 0x1_0000_0000int);
wrapops!(u8, wadd_u8, wsub_u8, wmul_u8, 0x100int);
wrapops!(usize, wadd_usize, wsub_usize, wmul_usize, 0x1_0000_0000_0000_0000int);
macro_rules! casts { ($f:ident, $a:ident, $b:ident, $lo:expr, $hi:expr, $m:expr) => { verus!{
#[verifier::external_body] pub fn $f(x: $a) -> (r: $b) ensures ($lo <= x as int <= $hi) ==> r as int == x as int, (x as int) > $hi && (x as int) - $m <= $hi && (x as int) - $m >= $lo ==> r as int == x as int - $m, (x as int) < $lo && (x as int) + $m <= $hi ==> r as int == x as int + $m { x as $b }
}}}
casts!(cast_i32_u32, i32, u32, 0int, 0xffff_ffffint, 0x1_0000_0000int);
casts!(cast_i32_u8, i32, u8, 0int, 0xffint, 0x100int);
casts!(cast_i32_usize, i32, usize, 0int, 0xffff_ffff_ffff_ffffint, 0x1_0000_0000_0000_0000int);
casts!(cast_u32_i32, u32, i32, -0x8000_0000int, 0x7fff_ffffint, 0x1_0000_0000int);
casts!(cast_usize_u32, usize, u32, 0int, 0xffff_ffffint, 0x1_0000_0000int);
#[verifier::external_body] pub fn cast_usize_i32(x: usize) -> (r: i32) ensures x as int <= 0x7fff_ffffint ==> r as int == x as int, x as int >= 0xffff_ffff_8000_0000int ==> r as int == x as int - 0x1_0000_0000_0000_0000int { x as i32 }
casts!(cast_usize_i64, usize, i64, -0x8000_0000_0000_0000int, 0x7fff_ffff_ffff_ffffint, 0x1_0000_0000_0000_0000int);
casts!(cast_i64_usize, i64, usize, 0int, 0xffff_ffff_ffff_ffffint, 0x1_0000_0000_0000_0000int);
casts!(cast_i64_u32, i64, u32, 0int, 0xffff_ffffint, 0x1_0000_0000int);
casts!(cast_i64_i32, i64, i32, -0x8000_0000int, 0x7fff_ffffint, 0x1_0000_0000int);
pub fn bit_xor_u32(a: u32, b: u32) -> (r: u32) ensures r == a ^ b { a ^ b }
pub fn bit_and_u32(a: u32, b: u32) -> (r: u32) ensures r == a & b { a & b }
pub fn bit_or_u32(a: u32, b: u32) -> (r: u32) ensures r == a | b { a | b }
#[verifier::external_body] pub fn iabs_i32(a: i32) -> (r: i32) requires a > -2147483648 ensures r == (if a < 0 { -a } else { a as int }) { unimplemented!() }
#[verifier::external_body] pub fn iter_add(p: usize, d: i64) -> (r: usize) requires 0 <= p + d <= usize::MAX ensures r == p + d { unimplemented!() }
#[verifier::external_body] pub fn iter_sub(p: usize, d: i64) -> (r: usize) requires 0 <= p - d <= usize::MAX ensures r == p - d { unimplemented!() }
#[verifier::external_body] pub fn iter_diff(a: usize, b: usize) -> (r: i64) ensures r == a - b { unimplemented!() }
#[verifier::external_body] pub fn min_i32(a: i32, b: i32) -> (r: i32) ensures r == (if b < a { b } else { a }) { unimplemented!() }
#[verifier::external_body] pub fn max_i32(a: i32, b: i32) -> (r: i32) ensures r == (if a < b { b } else { a }) { unimplemented!() }
#[verifier::external_body] pub fn min_u32(a: u32, b: u32) -> (r: u32) ensures r == (if b < a { b } else { a }) { unimplemented!() }
#[verifier::external_body] pub fn max_u32(a: u32, b: u32) -> (r: u32) ensures r == (if a < b { b } else { a }) { unimplemented!() }

// ------------------------------------------------------------------ copies and comparison
#[verifier::external_body] pub fn cp<T>(x: &T) -> (r: T) ensures r == *x { unimplemented!() }
#[verifier::external_body] pub fn ceq<T>(a: &T, b: &T) -> (r: bool) ensures r == (*a == *b) { unimplemented!() }
#[verifier::external_body] pub fn clt<T>(a: &T, b: &T) -> (r: bool) ensures r == cless(*a, *b) { unimplemented!() }

// ------------------------------------------------------------------ std::vector / std::list
// containers hold fewer than 2^31 elements (trusted: a memory bound)
pub spec const MAXLEN: int = 0x7fff_ffff;
#[verifier::external_body]
#[verifier::reject_recursive_types(T)]
pub struct CVec<T> { v: Vec<T> }
pub uninterp spec fn cvec_of<T>(s: Seq<T>) -> CVec<T>;
pub broadcast axiom fn ax_cvec_inj<T>(a: CVec<T>) ensures cvec_of(#[trigger] a.view()) == a;
pub broadcast axiom fn ax_cvec_mk<T>(s: Seq<T>) ensures (#[trigger] cvec_of(s)).view() == s;
impl<T> CVec<T> {
    pub uninterp spec fn view(&self) -> Seq<T>;
    #[verifier::external_body] pub fn new() -> (r: Self) ensures r@ == Seq::<T>::empty() { unimplemented!() }
    #[verifier::external_body] pub fn len(&self) -> (r: usize) ensures r == self@.len(), r <= MAXLEN { unimplemented!() }
    #[verifier::external_body] pub fn at(&self, i: usize) -> (r: &T) requires i < self@.len() ensures *r == self@[i as int] { unimplemented!() }
    #[verifier::external_body] pub fn at_mut(&mut self, i: usize) -> (r: &mut T) requires i < old(self)@.len()
        ensures *r == old(self)@[i as int], final(self)@ == old(self)@.update(i as int, *final(r)) { unimplemented!() }
    #[verifier::external_body] pub fn back(&self) -> (r: &T) requires 0 < self@.len() ensures *r == self@.last() { unimplemented!() }
    #[verifier::external_body] pub fn back_mut(&mut self) -> (r: &mut T) requires 0 < old(self)@.len()
        ensures *r == old(self)@.last(), final(self)@ == old(self)@.update(old(self)@.len() - 1, *final(r)) { unimplemented!() }
    #[verifier::external_body] pub fn push(&mut self, t: T) ensures final(self)@ == old(self)@.push(t) { unimplemented!() }
    #[verifier::external_body] pub fn pop(&mut self) requires 0 < old(self)@.len() ensures final(self)@ == old(self)@.drop_last() { unimplemented!() }
    #[verifier::external_body] pub fn clear(&mut self) ensures final(self)@ == Seq::<T>::empty() { unimplemented!() }
    #[verifier::external_body] pub fn resize(&mut self, n: usize, t: T)
        ensures final(self)@ == (if n <= old(self)@.len() { old(self)@.subrange(0, n as int) } else { old(self)@ + Seq::new((n - old(self)@.len()) as nat, |i: int| t) }) { unimplemented!() }
    #[verifier::external_body] pub fn erase(&mut self, i: usize) -> (r: usize) requires i < old(self)@.len() ensures final(self)@ == old(self)@.remove(i as int), r == i { unimplemented!() }
    #[verifier::external_body] pub fn erase_range(&mut self, i: usize, j: usize) -> (r: usize) requires i <= j <= old(self)@.len()
        ensures final(self)@ == old(self)@.subrange(0, i as int) + old(self)@.subrange(j as int, old(self)@.len() as int), r == i { unimplemented!() }
    #[verifier::external_body] pub fn insert_at(&mut self, i: usize, t: T) requires i <= old(self)@.len() ensures final(self)@ == old(self)@.insert(i as int, t) { unimplemented!() }
    #[verifier::external_body] pub fn insert_all(&mut self, i: usize, t: CVec<T>) requires i <= old(self)@.len()
        ensures final(self)@ == old(self)@.subrange(0, i as int) + t@ + old(self)@.subrange(i as int, old(self)@.len() as int) { unimplemented!() }
    #[verifier::external_body] pub fn append_all(&mut self, t: CVec<T>) ensures final(self)@ == old(self)@ + t@ { unimplemented!() }
    #[verifier::external_body] pub fn reverse(&mut self) ensures final(self)@ == old(self)@.reverse() { unimplemented!() }
    #[verifier::external_body] pub fn sort(&mut self)
        ensures sorted_le(final(self)@), perm(old(self)@, final(self)@), final(self)@.len() == old(self)@.len(),
            forall|x: T| #[trigger] final(self)@.contains(x) <==> old(self)@.contains(x),
            dupfree(old(self)@) ==> dupfree(final(self)@) { unimplemented!() }
    #[verifier::external_body] pub fn sort_greater(&mut self)
        ensures perm(old(self)@, final(self)@), final(self)@.len() == old(self)@.len(), forall|i: int, j: int| #![trigger final(self)@[i], final(self)@[j]] 0 <= i < j < final(self)@.len() ==> !cless(final(self)@[i], final(self)@[j]) { unimplemented!() }
    #[verifier::external_body] pub fn sort_by<F: Fn(&T, &T) -> bool>(&mut self, f: F)
        requires forall|a: T, b: T| #[trigger] f.requires((&a, &b)), forall|a: T| !(#[trigger] f.ensures((&a, &a), true)),
        ensures perm(old(self)@, final(self)@), final(self)@.len() == old(self)@.len(),
            forall|i: int, j: int| #![trigger final(self)@[i], final(self)@[j]] 0 <= i < j < final(self)@.len() ==> f.ensures((&final(self)@[j], &final(self)@[i]), false) { unimplemented!() }
    #[verifier::external_body] pub fn sort_range_by<F: Fn(&T, &T) -> bool>(&mut self, p: usize, q: usize, f: F)
        requires p <= q <= old(self)@.len(), forall|i: int, j: int| p <= i < q && p <= j < q ==> #[trigger] f.requires((&old(self)@[i], &old(self)@[j])),
            forall|i: int| p <= i < q ==> !(#[trigger] f.ensures((&old(self)@[i], &old(self)@[i]), true)),
        ensures final(self)@.len() == old(self)@.len(),
            forall|i: int| #![trigger final(self)@[i]] 0 <= i < p || q <= i < final(self)@.len() ==> final(self)@[i] == old(self)@[i],
            perm(old(self)@.subrange(p as int, q as int), final(self)@.subrange(p as int, q as int)),
            forall|i: int, j: int| #![trigger final(self)@[i], final(self)@[j]] p <= i < j < q ==> f.ensures((&final(self)@[j], &final(self)@[i]), false) { unimplemented!() }
}
#[verifier::external_body] pub fn vec_n<T>(n: usize, t: T) -> (r: CVec<T>) ensures r@ == Seq::new(n as nat, |i: int| t) { unimplemented!() }
#[verifier::external_body] pub fn vec_range<T>(v: &CVec<T>, p: usize, q: usize) -> (r: CVec<T>) requires p <= q <= v@.len() ensures r@ == v@.subrange(p as int, q as int) { unimplemented!() }
#[verifier::external_body] pub fn vec_from_set_range<T>(v: &CSet<T>, p: usize, q: usize) -> (r: CVec<T>) requires p <= q <= v@.len() ensures r@ == v@.subrange(p as int, q as int) { unimplemented!() }
#[verifier::external_body] pub fn set_from_vec_range<T>(v: &CVec<T>, p: usize, q: usize) -> (r: CSet<T>) requires p <= q <= v@.len() ensures r.s() == v@.subrange(p as int, q as int).to_set() { unimplemented!() }
#[verifier::external_body] pub fn set_from_set_range<T>(v: &CSet<T>, p: usize, q: usize) -> (r: CSet<T>) requires p <= q <= v@.len() ensures r@ == v@.subrange(p as int, q as int) { unimplemented!() }
#[verifier::external_body] pub fn find_vec<T>(v: &CVec<T>, x: &T) -> (r: usize)
    ensures r <= v@.len(), r < v@.len() ==> v@[r as int] == *x, forall|i: int| 0 <= i < r ==> v@[i] != *x { unimplemented!() }
#[verifier::external_body] pub fn set_includes<T>(a: &CSet<T>, b: &CSet<T>) -> (r: bool) ensures r == b.s().subset_of(a.s()) { unimplemented!() }
#[verifier::external_body] pub fn find_set<T>(v: &CSet<T>, x: &T) -> (r: usize)
    ensures r <= v@.len(), r < v@.len() ==> v@[r as int] == *x, forall|i: int| 0 <= i < r ==> v@[i] != *x { unimplemented!() }
#[verifier::external_body] pub fn max_element<T>(v: &CVec<T>) -> (r: usize)
    ensures v@.len() > 0 ==> r < v@.len(), v@.len() == 0 ==> r == 0, forall|i: int| 0 <= i < v@.len() ==> !cless(v@[r as int], #[trigger] v@[i]), forall|i: int| 0 <= i < r ==> cless(#[trigger] v@[i], v@[r as int]) { unimplemented!() }
#[verifier::external_body] pub fn min_element<T>(v: &CVec<T>) -> (r: usize)
    ensures v@.len() > 0 ==> r < v@.len(), v@.len() == 0 ==> r == 0, forall|i: int| 0 <= i < v@.len() ==> !cless(#[trigger] v@[i], v@[r as int]), forall|i: int| 0 <= i < r ==> cless(v@[r as int], #[trigger] v@[i]) { unimplemented!() }

// ------------------------------------------------------------------ std::set : a strictly increasing sequence
#[verifier::external_body]
#[verifier::reject_recursive_types(T)]
pub struct CSet<T> { v: Vec<T> }
pub uninterp spec fn cset_of<T>(s: Set<T>) -> CSet<T>;
pub broadcast axiom fn ax_cset_inj<T>(a: CSet<T>) ensures cset_of(#[trigger] a.s()) == a;
pub broadcast axiom fn ax_cset_mk<T>(s: Set<T>) ensures (#[trigger] cset_of(s)).s() == s;
pub broadcast axiom fn ax_cset_view<T>(a: CSet<T>) ensures sorted_lt(#[trigger] a.view()), a.view().len() == a.s().len(), a.view().to_set() == a.s();
pub broadcast axiom fn ax_cset_mem<T>(a: CSet<T>, x: T) ensures #[trigger] a.s().contains(x) <==> a.view().contains(x);
impl<T> CSet<T> {
    pub uninterp spec fn view(&self) -> Seq<T>;
    pub uninterp spec fn s(&self) -> Set<T>;
    #[verifier::external_body] pub fn new() -> (r: Self) ensures r@ == Seq::<T>::empty(), r.s() == Set::<T>::empty() { unimplemented!() }
    #[verifier::external_body] pub fn len(&self) -> (r: usize) ensures r == self@.len(), r == self.s().len(), r <= MAXLEN { unimplemented!() }
    #[verifier::external_body] pub fn at(&self, i: usize) -> (r: &T) requires i < self@.len() ensures *r == self@[i as int], self.s().contains(*r) { unimplemented!() }
    #[verifier::external_body] pub fn insert(&mut self, t: T) ensures final(self).s() == old(self).s().insert(t) { unimplemented!() }
    #[verifier::external_body] pub fn insert_set(&mut self, t: CSet<T>) ensures final(self).s() == old(self).s().union(t.s()) { unimplemented!() }
    #[verifier::external_body] pub fn insert_all(&mut self, t: CVec<T>) ensures final(self).s() == old(self).s().union(t@.to_set()) { unimplemented!() }
    #[verifier::external_body] pub fn clear(&mut self) ensures final(self)@ == Seq::<T>::empty(), final(self).s() == Set::<T>::empty() { unimplemented!() }
    #[verifier::external_body] pub fn find(&self, x: &T) -> (r: usize) ensures r <= self@.len(), (r < self@.len()) == self.s().contains(*x), r < self@.len() ==> self@[r as int] == *x { unimplemented!() }
    #[verifier::external_body] pub fn count(&self, x: &T) -> (r: usize) ensures r == (if self.s().contains(*x) { 1int } else { 0 }) { unimplemented!() }
    #[verifier::external_body] pub fn erase_key(&mut self, x: T) -> (r: usize) ensures final(self).s() == old(self).s().remove(x), r == (if old(self).s().contains(x) { 1int } else { 0 }) { unimplemented!() }
    #[verifier::external_body] pub fn erase_at(&mut self, i: usize) -> (r: usize) requires i < old(self)@.len() ensures final(self)@ == old(self)@.remove(i as int), final(self).s() == old(self).s().remove(old(self)@[i as int]), r == i { unimplemented!() }
}
// ------------------------------------------------------------------ std::set<double, std::greater<double>> : strictly decreasing
#[verifier::external_body]
#[verifier::reject_recursive_types(T)]
pub struct CSetD<T> { v: Vec<T> }
pub uninterp spec fn csetd_of<T>(s: Set<T>) -> CSetD<T>;
pub open spec fn sorted_gt<T>(s: Seq<T>) -> bool { forall|i:int,j:int| #![trigger s[i], s[j]] 0<=i<j<s.len() ==> cless(s[j],s[i]) }
pub broadcast axiom fn ax_csetd_inj<T>(a: CSetD<T>) ensures csetd_of(#[trigger] a.s()) == a;
pub broadcast axiom fn ax_csetd_mk<T>(s: Set<T>) ensures (#[trigger] csetd_of(s)).s() == s;
pub broadcast axiom fn ax_csetd_view<T>(a: CSetD<T>) ensures sorted_gt(#[trigger] a.view()), a.view().len() == a.s().len(), a.view().to_set() == a.s();
impl<T> CSetD<T> {
    pub uninterp spec fn view(&self) -> Seq<T>;
    pub uninterp spec fn s(&self) -> Set<T>;
    #[verifier::external_body] pub fn new() -> (r: Self) ensures r@ == Seq::<T>::empty(), r.s() == Set::<T>::empty() { unimplemented!() }
    #[verifier::external_body] pub fn len(&self) -> (r: usize) ensures r == self@.len(), r == self.s().len(), r <= MAXLEN { unimplemented!() }
    #[verifier::external_body] pub fn at(&self, i: usize) -> (r: &T) requires i < self@.len() ensures *r == self@[i as int], self.s().contains(*r) { unimplemented!() }
    #[verifier::external_body] pub fn insert(&mut self, t: T) ensures final(self).s() == old(self).s().insert(t) { unimplemented!() }
    #[verifier::external_body] pub fn clear(&mut self) ensures final(self)@ == Seq::<T>::empty(), final(self).s() == Set::<T>::empty() { unimplemented!() }
    #[verifier::external_body] pub fn count(&self, x: &T) -> (r: usize) ensures r == (if self.s().contains(*x) { 1int } else { 0 }) { unimplemented!() }
    #[verifier::external_body] pub fn find(&self, x: &T) -> (r: usize) ensures r <= self@.len(), (r < self@.len()) == self.s().contains(*x), r < self@.len() ==> self@[r as int] == *x { unimplemented!() }
    #[verifier::external_body] pub fn erase_key(&mut self, x: T) -> (r: usize) ensures final(self).s() == old(self).s().remove(x), r == (if old(self).s().contains(x) { 1int } else { 0 }) { unimplemented!() }
}
// ------------------------------------------------------------------ std::string : a sequence of bytes
#[verifier::external_body]
pub struct CStr { v: Vec<u8> }
pub uninterp spec fn cstr_of(s: Seq<u8>) -> CStr;
pub broadcast axiom fn ax_cstr_inj(a: CStr) ensures cstr_of(#[trigger] a.view()) == a;
pub broadcast axiom fn ax_cstr_mk(s: Seq<u8>) ensures (#[trigger] cstr_of(s)).view() == s;
pub open spec fn bytes(s: Seq<char>) -> Seq<u8> { s.map_values(|c: char| c as u8) }
pub open spec fn lit(s: &str) -> CStr { cstr_of(bytes(s@)) }
pub spec const NPOS: int = 0xffff_ffff_ffff_ffff;
impl CStr {
    pub uninterp spec fn view(&self) -> Seq<u8>;
    #[verifier::external_body] pub fn new() -> (r: Self) ensures r@ == Seq::<u8>::empty() { unimplemented!() }
    #[verifier::external_body] pub fn lit(s: &'static str) -> (r: Self) ensures r == lit(s) { unimplemented!() }
    #[verifier::external_body] pub fn len(&self) -> (r: usize) ensures r == self@.len(), r <= MAXLEN { unimplemented!() }
    #[verifier::external_body] pub fn at(&self, i: usize) -> (r: u8) requires i < self@.len() ensures r == self@[i as int] { unimplemented!() }
    #[verifier::external_body] pub fn substr(&self, p: usize, n: usize) -> (r: CStr) requires p <= self@.len()
        ensures r@ == self@.subrange(p as int, if p + n <= self@.len() { p + n } else { self@.len() as int }) { unimplemented!() }
    #[verifier::external_body] pub fn substr_from(&self, p: usize) -> (r: CStr) requires p <= self@.len() ensures r@ == self@.subrange(p as int, self@.len() as int) { unimplemented!() }
    #[verifier::external_body] pub fn find_char(&self, c: u8, p: usize) -> (r: usize)
        ensures r == NPOS ==> (forall|i: int| p <= i < self@.len() ==> self@[i] != c),
            r != NPOS ==> p <= r < self@.len() && self@[r as int] == c && (forall|i: int| p <= i < r ==> self@[i] != c) { unimplemented!() }
    #[verifier::external_body] pub fn find_str(&self, t: &CStr, p: usize) -> (r: usize)
        ensures r == NPOS ==> (forall|i: int| #![trigger occurs(self@, t@, i)] p <= i ==> !occurs(self@, t@, i)),
            r != NPOS ==> p <= r && occurs(self@, t@, r as int) && (forall|i: int| #![trigger occurs(self@, t@, i)] p <= i < r ==> !occurs(self@, t@, i)) { unimplemented!() }
    #[verifier::external_body] pub fn erase(&mut self, i: usize, n: usize) requires i <= old(self)@.len()
        ensures final(self)@ == old(self)@.subrange(0, i as int) + old(self)@.subrange(if i + n <= old(self)@.len() { i + n } else { old(self)@.len() as int }, old(self)@.len() as int) { unimplemented!() }
    #[verifier::external_body] pub fn clear(&mut self) ensures final(self)@ == Seq::<u8>::empty() { unimplemented!() }
}
pub open spec fn occurs(s: Seq<u8>, t: Seq<u8>, i: int) -> bool { 0 <= i && i + t.len() <= s.len() && s.subrange(i, i + t.len()) == t }
#[verifier::external_body] pub fn str_concat(a: &CStr, b: &CStr) -> (r: CStr) ensures r@ == a@ + b@ { unimplemented!() }
#[verifier::external_body] pub fn str_push(a: &CStr, c: u8) -> (r: CStr) ensures r@ == a@.push(c) { unimplemented!() }
#[verifier::external_body] pub fn str_n(n: usize, c: u8) -> (r: CStr) ensures r@ == Seq::new(n as nat, |i: int| c) { unimplemented!() }
pub open spec fn scount(s: Seq<u8>, c: u8) -> int decreases s.len() { if s.len() == 0 { 0 } else { (if s[0] == c { 1int } else { 0 }) + scount(s.subrange(1, s.len() as int), c) } }
#[verifier::external_body] pub fn str_count(s: &CStr, c: u8) -> (r: i64) ensures r == scount(s@, c) { unimplemented!() }
pub uninterp spec fn dec_i(x: int) -> CStr;          // decimal text of an integer
pub uninterp spec fn dec_r(x: real) -> CStr;         // std::to_string of a double
pub uninterp spec fn s_atoi(s: CStr) -> int;         // value of std::atoi / std::stoi
pub uninterp spec fn s_atof(s: CStr) -> real;        // value of std::atof / std::stod
#[verifier::external_body] pub fn to_string_f64(x: F64) -> (r: CStr) ensures r == dec_r(x@) { unimplemented!() }
macro_rules! tostr { ($f:ident, $t:ident) => { verus!{ #[verifier::external_body] pub fn $f(x: $t) -> (r: CStr) ensures r == dec_i(x as int) { unimplemented!() } } } }
tostr!(to_string_i32, i32); tostr!(to_string_u32, u32); tostr!(to_string_usize, usize); tostr!(to_string_i64, i64);
#[verifier::external_body] pub fn stoi(s: &CStr) -> (r: i32) ensures r == s_atoi(*s) { unimplemented!() }
#[verifier::external_body] pub fn stod(s: &CStr) -> (r: F64) ensures r@ == s_atof(*s) { unimplemented!() }
// ------------------------------------------------------------------ std::map : a finite map with its keys in increasing order
#[verifier::external_body]
#[verifier::reject_recursive_types(K)]
#[verifier::reject_recursive_types(V)]
pub struct CMap<K, V> { v: Vec<(K, V)> }
pub uninterp spec fn cmap_of<K, V>(m: Map<K, V>) -> CMap<K, V>;
pub broadcast axiom fn ax_cmap_inj<K, V>(a: CMap<K, V>) ensures cmap_of(#[trigger] a.view()) == a;
pub broadcast axiom fn ax_cmap_mk<K, V>(s: Map<K, V>) ensures (#[trigger] cmap_of(s)).view() == s;
pub broadcast axiom fn ax_cmap_keys<K, V>(a: CMap<K, V>) ensures sorted_lt(#[trigger] a.keys()), dupfree(a.keys()), a.keys().len() == a.view().dom().len(), a.keys().to_set() == a.view().dom();
pub broadcast axiom fn ax_cmap_mem<K, V>(a: CMap<K, V>, k: K) ensures #[trigger] a.view().contains_key(k) <==> a.keys().contains(k);
impl<K, V> CMap<K, V> {
    pub uninterp spec fn view(&self) -> Map<K, V>;
    pub uninterp spec fn keys(&self) -> Seq<K>;
    #[verifier::external_body] pub fn new() -> (r: Self) ensures r@ == Map::<K, V>::empty(), r.keys() == Seq::<K>::empty() { unimplemented!() }
    #[verifier::external_body] pub fn len(&self) -> (r: usize) ensures r == self.keys().len(), r <= MAXLEN { unimplemented!() }
    #[verifier::external_body] pub fn find(&self, k: &K) -> (r: usize)
        ensures r <= self.keys().len(), (r < self.keys().len()) == self@.contains_key(*k), r < self.keys().len() ==> self.keys()[r as int] == *k { unimplemented!() }
    #[verifier::external_body] pub fn find_key(&self, k: &K) -> (r: Option<K>) ensures r == (if self@.contains_key(*k) { Some(*k) } else { None }) { unimplemented!() }
    #[verifier::external_body] pub fn count(&self, k: &K) -> (r: usize) ensures r == (if self@.contains_key(*k) { 1int } else { 0 }) { unimplemented!() }
    #[verifier::external_body] pub fn idx(&mut self, k: K, d: V) -> (r: &mut V)
        ensures *r == (if old(self)@.contains_key(k) { old(self)@[k] } else { d }), final(self)@ == old(self)@.insert(k, *final(r)) { unimplemented!() }
    #[verifier::external_body] pub fn get(&self, k: &K) -> (r: &V) requires self@.contains_key(*k) ensures *r == self@[*k] { unimplemented!() }
    #[verifier::external_body] pub fn get_mut(&mut self, k: &K) -> (r: &mut V) requires old(self)@.contains_key(*k)
        ensures *r == old(self)@[*k], final(self)@ == old(self)@.insert(*k, *final(r)) { unimplemented!() }
    #[verifier::external_body] pub fn key_at(&self, i: usize) -> (r: &K) requires i < self.keys().len() ensures *r == self.keys()[i as int], self@.contains_key(*r) { unimplemented!() }
    #[verifier::external_body] pub fn val_at(&self, i: usize) -> (r: &V) requires i < self.keys().len() ensures *r == self@[self.keys()[i as int]] { unimplemented!() }
    #[verifier::external_body] pub fn val_at_mut(&mut self, i: usize) -> (r: &mut V) requires i < old(self).keys().len()
        ensures *r == old(self)@[old(self).keys()[i as int]], final(self)@ == old(self)@.insert(old(self).keys()[i as int], *final(r)), final(self).keys() == old(self).keys() { unimplemented!() }
    #[verifier::external_body] pub fn insert_pair(&mut self, p: (K, V)) ensures final(self)@ == (if old(self)@.contains_key(p.0) { old(self)@ } else { old(self)@.insert(p.0, p.1) }) { unimplemented!() }
    #[verifier::external_body] pub fn erase_key(&mut self, k: K) -> (r: usize) ensures final(self)@ == old(self)@.remove(k), r == (if old(self)@.contains_key(k) { 1int } else { 0 }) { unimplemented!() }
    #[verifier::external_body] pub fn erase_at(&mut self, i: usize) -> (r: usize) requires i < old(self).keys().len()
        ensures final(self)@ == old(self)@.remove(old(self).keys()[i as int]), final(self).keys() == old(self).keys().remove(i as int), r == i { unimplemented!() }
    #[verifier::external_body] pub fn clear(&mut self) ensures final(self)@ == Map::<K, V>::empty(), final(self).keys() == Seq::<K>::empty() { unimplemented!() }
}
/// the key an iterator into a std::map stands on
pub fn kget<K>(o: &Option<K>) -> (r: &K) requires o.is_some() ensures *r == o->Some_0 { match o { Some(k) => k, None => vstd::pervasive::unreached() } }
// call of a function that has no contract: the verifier must show it is never reached
#[verifier::external_body] pub fn no_contract() requires false { unimplemented!() }
// ------------------------------------------------------------------ merging algorithms on sorted ranges
macro_rules! mergealg { ($f:ident, $c:ident, $($p:tt)*) => { verus!{
#[verifier::external_body] pub fn $f<T>(a: &$c<T>, b: &$c<T>) -> (r: CVec<T>)
    requires sorted_le(a@), sorted_le(b@),
    ensures dupfree(a@) && dupfree(b@) ==> sorted_lt(r@),
        dupfree(a@) && dupfree(b@) ==> forall|x: T| #[trigger] r@.contains(x) <==> comb_holds::<T>(a@.contains(x), b@.contains(x), $($p)*) { unimplemented!() }
}}}
macro_rules! mergeset { ($f:ident, $($p:tt)*) => { verus!{
#[verifier::external_body] pub fn $f<T>(a: &CSet<T>, b: &CSet<T>) -> (r: CVec<T>)
    ensures sorted_lt(r@), r@.to_set() == comb_set(a.s(), b.s(), $($p)*), forall|x: T| #[trigger] r@.contains(x) <==> comb_holds::<T>(a.s().contains(x), b.s().contains(x), $($p)*) { unimplemented!() }
}}}
pub open spec fn comb_set<T>(p: Set<T>, q: Set<T>, k: int) -> Set<T> { if k == 0 { p.intersect(q) } else if k == 1 { p.union(q) } else if k == 2 { p.difference(q).union(q.difference(p)) } else { p.difference(q) } }
pub open spec fn comb_holds<T>(p: bool, q: bool, k: int) -> bool { if k == 0 { p && q } else if k == 1 { p || q } else if k == 2 { p != q } else { p && !q } }
mergealg!(stl_intersection_v, CVec, 0);
// libstdc++ set_union on unsorted vectors yields an unspecified sequence (no contract is given for it)
#[verifier::external_body] pub fn stl_union_v<T>(a: &CVec<T>, b: &CVec<T>) -> (r: CVec<T>)
    ensures sorted_le(a@) && sorted_le(b@) && dupfree(a@) && dupfree(b@) ==> sorted_lt(r@) && forall|x: T| #[trigger] r@.contains(x) <==> a@.contains(x) || b@.contains(x) { unimplemented!() }
mergealg!(stl_symdiff_v, CVec, 2);
mergealg!(stl_difference_v, CVec, 3);
mergeset!(stl_intersection_s, 0);
mergeset!(stl_union_s, 1);
mergeset!(stl_symdiff_s, 2);
mergeset!(stl_difference_s, 3);

pub broadcast group stl_axioms { ax_less_u32, ax_less_i32, ax_less_f64, ax_f64_inj, ax_f64_mk, ax_rpow2, ax_rsqrt, ax_cvec_inj, ax_cvec_mk, ax_cset_inj, ax_cset_mk, ax_cset_view, ax_cset_mem, ax_csetd_inj, ax_csetd_mk, ax_csetd_view, ax_cstr_inj, ax_cstr_mk, ax_cmap_inj, ax_cmap_mk, ax_cmap_keys, ax_cmap_mem }
} // verus!
