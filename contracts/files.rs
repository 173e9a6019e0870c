// ---------------------------------------------------------------- files: a map from names to contents (trusted model)
#[verifier::external_body] pub struct CDisk { v: Vec<u8> }
impl CDisk { pub uninterp spec fn view(&self) -> Map<Seq<u8>, Seq<u8>>; }
/// can a file of this name be created?
pub uninterp spec fn writable(name: Seq<u8>) -> bool;
// ---- std::ofstream
#[verifier::external_body] pub struct COfs { v: Vec<u8> }
impl COfs {
    pub uninterp spec fn name(&self) -> Seq<u8>;
    pub uninterp spec fn ok(&self) -> bool;
    #[verifier::external_body] pub fn new() -> (r: Self) ensures !r.ok() { unimplemented!() }
    #[verifier::external_body] pub fn is_open(&self) -> (r: bool) ensures r == self.ok() { unimplemented!() }
    #[verifier::external_body] pub fn open0(&mut self, disk: &mut CDisk, n: &CStr)
        ensures final(self).name() == n@, final(self).ok() == writable(n@), final(disk)@ == (if writable(n@) { old(disk)@.insert(n@, Seq::<u8>::empty()) } else { old(disk)@ }) { unimplemented!() }
    #[verifier::external_body] pub fn put0(&self, disk: &mut CDisk, s: &CStr)
        ensures final(disk)@ == (if self.ok() { old(disk)@.insert(self.name(), old(disk)@[self.name()] + s@) } else { old(disk)@ }) { unimplemented!() }
    #[verifier::external_body] pub fn close(&mut self) ensures !final(self).ok(), final(self).name() == old(self).name() { unimplemented!() }
    pub fn open(&mut self, disk: &mut CDisk, n: &CStr)
        ensures final(self).name() == n@, final(self).ok() == writable(n@), wrote(old(disk)@, final(disk)@, n@, Seq::<u8>::empty())
    { self.open0(disk, n); }
    pub fn put(&self, disk: &mut CDisk, s: &CStr)
        ensures final(disk)@ == (if self.ok() { old(disk)@.insert(self.name(), old(disk)@[self.name()] + s@) } else { old(disk)@ })
    { self.put0(disk, s); }
}
pub fn ofs_open(disk: &mut CDisk, n: &CStr) -> (r: COfs)
    ensures r.name() == n@, r.ok() == writable(n@), wrote(old(disk)@, final(disk)@, n@, Seq::<u8>::empty())
{ let mut f = COfs::new(); f.open(disk, n); f }
pub broadcast proof fn lem_ins2(d: Map<Seq<u8>, Seq<u8>>, n: Seq<u8>, a: Seq<u8>, b: Seq<u8>)
    ensures #[trigger] d.insert(n, a).insert(n, b) == d.insert(n, b)
{ assert(d.insert(n, a).insert(n, b) =~= d.insert(n, b)); }
/// exactly the file n was created, with text t
pub open spec fn wrote(d0: Map<Seq<u8>, Seq<u8>>, d1: Map<Seq<u8>, Seq<u8>>, n: Seq<u8>, t: Seq<u8>) -> bool { d1 == (if writable(n) { d0.insert(n, t) } else { d0 }) }
pub uninterp spec fn disp_r(x: real) -> CStr;        // default stream output of a double
#[verifier::external_body] pub fn disp_f64(x: F64) -> (r: CStr) ensures r == disp_r(x@) { unimplemented!() }
// ---- text of tables
pub open spec fn t_row(acc: Seq<u8>, r: Seq<F64>, j: int, sep: Seq<u8>) -> Seq<u8> decreases j { if j <= 0 { acc } else { t_row(acc, r, j - 1, sep) + dec_r(r[j - 1]@)@ + sep } }
pub open spec fn t_csv(acc: Seq<u8>, d: Seq<CVec<F64>>, k: int) -> Seq<u8> decreases k { if k <= 0 { acc } else { t_row(t_csv(acc, d, k - 1), d[k - 1]@, d[k - 1]@.len() as int, lit(",")@) + lit("\n")@ } }
pub open spec fn t_mat(acc: Seq<u8>, d: Seq<CVec<F64>>, k: int) -> Seq<u8> decreases k { if k <= 0 { acc } else { t_row(t_mat(acc, d, k - 1), d[k - 1]@, d[k - 1]@.len() as int, lit("\n")@) } }
