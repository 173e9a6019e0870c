// ---------------------------------------------------------------- input files (trusted model of std::ifstream, std::getline, fopen/fgets, std::regex_replace)
/// can the file be opened for reading?
pub uninterp spec fn readable(d: Map<Seq<u8>, Seq<u8>>, n: Seq<u8>) -> bool;
/// length of the first line, without its newline
pub open spec fn nl(c: Seq<u8>) -> int decreases c.len() { if c.len() == 0 || c[0] == 10u8 { 0 } else { 1 + nl(c.subrange(1, c.len() as int)) } }
pub open spec fn first_line(c: Seq<u8>) -> Seq<u8> { c.subrange(0, nl(c)) }
pub open spec fn after(c: Seq<u8>) -> Seq<u8> { if nl(c) < c.len() { c.subrange(nl(c) + 1, c.len() as int) } else { Seq::empty() } }
/// content after k lines
pub open spec fn drop_lines(c: Seq<u8>, k: int) -> Seq<u8> decreases k { if k <= 0 { c } else { after(drop_lines(c, k - 1)) } }
/// the k-th line; a line missing from the file is blank
pub open spec fn line_at(c: Seq<u8>, k: int) -> Seq<u8> { first_line(drop_lines(c, k)) }
pub broadcast proof fn lem_nl(c: Seq<u8>) ensures 0 <= #[trigger] nl(c) <= c.len() decreases c.len()
{ if c.len() != 0 && c[0] != 10u8 { lem_nl(c.subrange(1, c.len() as int)); } }
#[verifier::external_body] pub struct CIfs { v: Vec<u8> }
impl CIfs {
    pub uninterp spec fn failed(&self) -> bool;
    pub uninterp spec fn ended(&self) -> bool;
    pub uninterp spec fn rest(&self) -> Seq<u8>;
    #[verifier::external_body] pub fn new() -> (r: Self) ensures !r.ended(), !r.failed() { unimplemented!() }
    #[verifier::external_body] pub fn eof(&self) -> (r: bool) ensures r == self.ended() { unimplemented!() }
    #[verifier::external_body] pub fn fail(&self) -> (r: bool) ensures r == self.failed() { unimplemented!() }
    #[verifier::external_body] pub fn good(&self) -> (r: bool) ensures r == (!self.failed() && !self.ended()) { unimplemented!() }
    #[verifier::external_body] pub fn is_open(&self) -> (r: bool) { unimplemented!() }
    #[verifier::external_body] pub fn close(&mut self) ensures final(self).ended() == old(self).ended() { unimplemented!() }
    #[verifier::external_body] pub fn open(&mut self, disk: &CDisk, n: &CStr)
        ensures final(self).ended() == old(self).ended() && !old(self).ended(), final(self).failed() == !readable(disk@, n@), readable(disk@, n@) ==> final(self).rest() == disk@[n@] { unimplemented!() }
}
#[verifier::external_body] pub fn ifs_open(disk: &CDisk, n: &CStr) -> (r: CIfs)
    ensures !r.ended(), r.failed() == !readable(disk@, n@), readable(disk@, n@) ==> r.rest() == disk@[n@] { unimplemented!() }
#[verifier::external_body] pub fn getline(f: &mut CIfs, line: &mut CStr) -> (r: bool)
    ensures
        r == !final(f).failed(),
        old(f).failed() || old(f).ended() ==> !r && final(f).ended() == old(f).ended() && final(f).rest() == old(f).rest() && *final(line) == *old(line),
        !old(f).failed() && !old(f).ended() ==> {
            &&& final(line)@ == first_line(old(f).rest())
            &&& final(f).rest() == after(old(f).rest())
            &&& final(f).ended() == (nl(old(f).rest()) == old(f).rest().len())
            &&& final(f).failed() == (old(f).rest().len() == 0)
        } { unimplemented!() }
pub open spec fn is_space(c: u8) -> bool { c == 32u8 || (9u8 <= c && c <= 13u8) }
pub open spec fn strip(s: Seq<u8>) -> Seq<u8> { s.filter(|c: u8| !is_space(c)) }
pub open spec fn despace(s: Seq<u8>) -> Seq<u8> { s.filter(|c: u8| c != 32u8) }
#[verifier::external_body] pub fn regex_replace(s: &CStr, pat: &CStr, rep: &CStr) -> (r: CStr)
    ensures *pat == lit("\\s") && *rep == lit("") ==> r@ == strip(s@), *pat == lit(" ") && *rep == lit("") ==> r@ == despace(s@) { unimplemented!() }
// ---- text to numbers; std::stod and std::stoi throw unless the text begins with a number
pub uninterp spec fn dbl_ok(s: Seq<u8>) -> bool;
pub uninterp spec fn int_ok(s: Seq<u8>) -> bool;
pub open spec fn dbl_of(s: Seq<u8>) -> F64 { f64_of(s_atof(cstr_of(s))) }
pub open spec fn int_of(s: Seq<u8>) -> int { s_atoi(cstr_of(s)) }
#[verifier::external_body] pub fn stod_ok(s: &CStr) -> (r: F64) requires dbl_ok(s@) ensures r == dbl_of(s@) { unimplemented!() }
#[verifier::external_body] pub fn stoi_ok(s: &CStr) -> (r: i32) requires int_ok(s@) ensures r == int_of(s@) { unimplemented!() }
// ---- C files
#[verifier::external_body] pub struct CFile { v: Vec<u8> }
impl CFile {
    pub uninterp spec fn isnull(&self) -> bool;
    pub uninterp spec fn rest(&self) -> Seq<u8>;
    #[verifier::external_body] pub fn null() -> (r: Self) ensures r.isnull() { unimplemented!() }
    #[verifier::external_body] pub fn is_null(&self) -> (r: bool) ensures r == self.isnull() { unimplemented!() }
}
#[verifier::external_body] pub fn fopen(disk: &CDisk, n: &CStr) -> (r: CFile) ensures r.isnull() == !readable(disk@, n@), !r.isnull() ==> r.rest() == disk@[n@] { unimplemented!() }
#[verifier::external_body] pub fn fclose(f: &mut CFile) requires !old(f).isnull() { unimplemented!() }
pub open spec fn imin(a: int, b: int) -> int { if a <= b { a } else { b } }
/// bytes taken by one fgets
pub open spec fn chunk(c: Seq<u8>, n: int) -> int { imin(imin(nl(c) + 1, c.len() as int), n - 1) }
pub open spec fn no_nul(c: Seq<u8>) -> bool { forall|i: int| 0 <= i < c.len() ==> c[i] != 0u8 }
#[verifier::external_body] pub fn fgets(b: &mut CStr, n: i32, f: &mut CFile) -> (r: bool)
    requires !old(f).isnull(), n >= 2
    ensures !final(f).isnull(), r == (old(f).rest().len() > 0), !r ==> *final(b) == *old(b) && final(f).rest() == old(f).rest(),
        r ==> final(f).rest() == old(f).rest().subrange(chunk(old(f).rest(), n as int), old(f).rest().len() as int),
        r && no_nul(old(f).rest()) ==> final(b)@ == old(f).rest().subrange(0, chunk(old(f).rest(), n as int)) { unimplemented!() }
// ---- what the readers return
/// position of the first comma, or the length
pub open spec fn comma(t: Seq<u8>) -> int decreases t.len() { if t.len() == 0 || t[0] == 44u8 { 0 } else { 1 + comma(t.subrange(1, t.len() as int)) } }
pub open spec fn tail_after(t: Seq<u8>) -> Seq<u8> { t.subrange(comma(t) + 1, t.len() as int) }
/// the numbers between the commas; nothing after a trailing comma
pub open spec fn nums(t: Seq<u8>) -> Seq<F64> decreases t.len() via nums_dec {
    if t.len() == 0 { Seq::empty() } else if comma(t) < t.len() { seq![dbl_of(t.subrange(0, comma(t)))] + nums(tail_after(t)) } else { seq![dbl_of(t)] }
}
#[via_fn] proof fn nums_dec(t: Seq<u8>) { lem_comma(t); }
pub open spec fn nums_ok(t: Seq<u8>) -> bool decreases t.len() via nums_ok_dec {
    if t.len() == 0 { true } else if comma(t) < t.len() { dbl_ok(t.subrange(0, comma(t))) && nums_ok(tail_after(t)) } else { dbl_ok(t) }
}
#[via_fn] proof fn nums_ok_dec(t: Seq<u8>) { lem_comma(t); }
pub broadcast proof fn lem_comma(t: Seq<u8>) ensures 0 <= #[trigger] comma(t) <= t.len() decreases t.len()
{ if t.len() != 0 && t[0] != 44u8 { lem_comma(t.subrange(1, t.len() as int)); } }
pub proof fn lem_comma_at(t: Seq<u8>, p: int)
    requires 0 <= p <= t.len(), forall|i: int| 0 <= i < p ==> t[i] != 44u8, p < t.len() ==> t[p] == 44u8
    ensures comma(t) == p decreases t.len()
{
    if t.len() != 0 && t[0] != 44u8 {
        let u = t.subrange(1, t.len() as int);
        assert forall|i: int| 0 <= i < p - 1 implies u[i] != 44u8 by { assert(u[i] == t[i + 1]); }
        if p < t.len() { assert(u[p - 1] == t[p]); }
        lem_comma_at(u, p - 1);
    }
}
/// rows of a comma separated text: one per non-blank line
pub open spec fn csv_rows(c: Seq<u8>) -> Seq<Seq<F64>> decreases c.len() via csv_rows_dec {
    let s = strip(first_line(c));
    (if s.len() > 0 { seq![nums(s)] } else { Seq::empty() }) + (if nl(c) < c.len() { csv_rows(after(c)) } else { Seq::empty() })
}
#[via_fn] proof fn csv_rows_dec(c: Seq<u8>) { lem_nl(c); }
pub open spec fn csv_ok(c: Seq<u8>) -> bool decreases c.len() via csv_ok_dec {
    nums_ok(strip(first_line(c))) && (nl(c) < c.len() ==> csv_ok(after(c)))
}
#[via_fn] proof fn csv_ok_dec(c: Seq<u8>) { lem_nl(c); }
/// the non-blank numbers of k lines
pub open spec fn mat_row(c: Seq<u8>, k: int) -> Seq<F64> decreases k {
    if k <= 0 { Seq::empty() } else { let t = despace(line_at(c, k - 1)); mat_row(c, k - 1) + (if t.len() > 0 { seq![dbl_of(t)] } else { Seq::empty() }) }
}
pub open spec fn mat_header(c: Seq<u8>) -> bool { c.len() > 0 && after(c).len() > 0 }
pub open spec fn mat_n(c: Seq<u8>) -> int { let n = int_of(despace(line_at(c, 0))); if n > 0 { n } else { 0 } }
pub open spec fn mat_d(c: Seq<u8>) -> int { let n = int_of(despace(line_at(c, 1))); if n > 0 { n } else { 0 } }
/// block i begins after the header and i blocks of mat_d lines
pub open spec fn mat_at(c: Seq<u8>, i: int) -> Seq<u8> { drop_lines(c, 2 + i * mat_d(c)) }
pub open spec fn mat_ok(c: Seq<u8>) -> bool {
    &&& c.len() > 0 ==> int_ok(despace(line_at(c, 0)))
    &&& mat_header(c) ==> int_ok(despace(line_at(c, 1)))
    &&& forall|k: int| 2 <= k ==> { let t = #[trigger] despace(line_at(c, k)); t.len() == 0 || dbl_ok(t) }
}
pub proof fn lem_drop_add(c: Seq<u8>, a: int, b: int) requires a >= 0, b >= 0 ensures drop_lines(c, a + b) == drop_lines(drop_lines(c, a), b) decreases b
{ if b > 0 { lem_drop_add(c, a, b - 1); } }
pub proof fn lem_after_empty(c: Seq<u8>) requires c.len() == 0 ensures after(c) == Seq::<u8>::empty(), first_line(c) == Seq::<u8>::empty()
{ lem_nl(c); assert(first_line(c) =~= Seq::<u8>::empty()); }
pub proof fn lem_strip_empty(c: Seq<u8>) requires c.len() == 0 ensures strip(c) == Seq::<u8>::empty(), despace(c) == Seq::<u8>::empty()
{ reveal(Seq::filter); assert(strip(c) =~= Seq::<u8>::empty()); assert(despace(c) =~= Seq::<u8>::empty()); }
pub open spec fn vrows(v: Seq<CVec<F64>>) -> Seq<Seq<F64>> { v.map_values(|x: CVec<F64>| x@) }
/// rows still to come from a stream
pub open spec fn to_come(f: CIfs) -> Seq<Seq<F64>> { if f.ended() { Seq::empty() } else { csv_rows(f.rest()) } }
pub open spec fn mat_block(c: Seq<u8>, i: int) -> Seq<F64> { mat_row(mat_at(c, i), mat_d(c)) }
pub proof fn lem_first_nl(c: Seq<u8>) requires nl(c) < c.len() ensures c[nl(c)] == 10u8 decreases c.len()
{ lem_nl(c); if c[0] != 10u8 { let d = c.subrange(1, c.len() as int); lem_nl(d); assert(nl(c) == 1 + nl(d)); lem_first_nl(d); assert(d[nl(d)] == c[nl(d) + 1]); } }
/// one fgets takes the whole line when it is short enough
pub proof fn lem_chunk(c: Seq<u8>, n: int) requires nl(c) < n - 1 ensures strip(c.subrange(0, chunk(c, n))) == strip(first_line(c)), c.subrange(chunk(c, n), c.len() as int) == after(c)
{
    lem_nl(c);
    if nl(c) < c.len() {
        lem_first_nl(c);
        let a = c.subrange(0, chunk(c, n));
        assert(a.drop_last() =~= first_line(c)); assert(a.last() == 10u8);
        reveal(Seq::filter);
    } else { assert(c.subrange(0, chunk(c, n)) =~= first_line(c)); assert(c.subrange(chunk(c, n), c.len() as int) =~= after(c)); }
}
