// ---- polymorphic components: class, numeric constructor arguments, configuration it was given, and its base-class part
pub struct BasePtr { pub null: bool, pub cls: CStr, pub pars: CVec<F64>, pub cfg: Ghost<Option<Map<CStr,CStr>>>, pub base: BasePipe }
pub struct PrePtr { pub null: bool, pub cls: CStr, pub pars: CVec<F64>, pub cfg: Ghost<Option<Map<CStr,CStr>>>, pub base: Preprocessor }
pub struct SimpPtr { pub null: bool, pub cls: CStr, pub pars: CVec<F64>, pub cfg: Ghost<Option<Map<CStr,CStr>>>, pub base: SimplexBase }
impl BasePtr { #[verifier::external_body] pub fn arb() -> (r: Self) { unimplemented!() } #[verifier::external_body] pub fn null() -> (r: Self) ensures r.null { unimplemented!() } }
impl PrePtr { #[verifier::external_body] pub fn arb() -> (r: Self) { unimplemented!() } #[verifier::external_body] pub fn null() -> (r: Self) ensures r.null { unimplemented!() } }
impl SimpPtr { #[verifier::external_body] pub fn arb() -> (r: Self) { unimplemented!() } #[verifier::external_body] pub fn null() -> (r: Self) ensures r.null { unimplemented!() } }
// ---- names of the components
pub open spec fn stage_class(n: CStr, c: CStr) -> Option<CStr> {
    if n == lit("distMatrix") { Some(lit("distMatrixPipe")) }
    else if n == lit("neighGraph") { Some(lit("neighGraphPipe")) }
    else if n == lit("rips") { Some(lit("ripsPipe")) }
    else if n == lit("upscale") { Some(lit("upscalePipe")) }
    else if n == lit("boundary") { Some(lit("boundaryPipe")) }
    else if n == lit("persistence") { if c == lit("simplexArrayList") || c == lit("simplexTree") { Some(lit("persistencePairs")) } else if c == lit("indSimplexTree") { Some(lit("optPersistencePairs")) } else { None } }
    else if n == lit("slidingwindow") || n == lit("sliding") { Some(lit("slidingWindow")) }
    else if n == lit("fastPersistence") || n == lit("fast") { Some(lit("fastPersistence")) }
    else if n == lit("naivewindow") || n == lit("naive") { Some(lit("naiveWindow")) }
    else { None }
}
pub open spec fn pre_class(n: CStr) -> Option<CStr> {
    if n == lit("none") { Some(lit("preprocessor")) }
    else if n == lit("kmeansplusplus") || n == lit("kmeans++") || n == lit("kmeans") { Some(lit("kMeansPlusPlus")) }
    else if n == lit("streamingKmeans") || n == lit("streamingkmeans") || n == lit("streamKM") { Some(lit("streamingKmeans")) }
    else if n == lit("denStream") || n == lit("denstream") || n == lit("DenStream") { Some(lit("denStream")) }
    else { None }
}
pub open spec fn complex_class(n: CStr) -> Option<CStr> {
    if n == lit("simplexTree") || n == lit("simplexArrayList") || n == lit("indSimplexTree") { Some(n) } else { None }
}
// ---- required settings
pub open spec fn has_key(m: Map<CStr,CStr>, k: &str) -> bool { m.contains_key(lit(k)) }
pub open spec fn stage_ok(cls: CStr, m: Map<CStr,CStr>) -> bool {
    if cls == lit("distMatrixPipe") { has_key(m, "epsilon") }
    else if cls == lit("ripsPipe") || cls == lit("upscalePipe") { true }
    else if cls == lit("persistencePairs") || cls == lit("optPersistencePairs") || cls == lit("fastPersistence") { has_key(m, "dimensions") && has_key(m, "epsilon") && has_key(m, "twist") }
    else { has_key(m, "dimensions") && has_key(m, "epsilon") }
}
pub open spec fn pre_ok(cls: CStr, m: Map<CStr,CStr>) -> bool {
    if cls == lit("preprocessor") { true } else if cls == lit("denStream") { has_key(m, "epsilon") && has_key(m, "lambda") } else { has_key(m, "clusters") && has_key(m, "iterations") }
}
// ---- dynamic dispatch (assumed: a virtual call runs the override of the object's class, whose own contract is proved separately)
pub uninterp spec fn stage_out(cls: CStr, cfg: Map<CStr,CStr>, d: PipePacket) -> PipePacket;
pub uninterp spec fn pre_out(cls: CStr, cfg: Map<CStr,CStr>, d: PipePacket) -> PipePacket;
#[verifier::external_body] pub fn dyn_config(this: &mut BasePtr, m: CMap<CStr,CStr>) -> (r: bool) requires !old(this).null
    ensures r == stage_ok(old(this).cls, m@), final(this).cls == old(this).cls, !final(this).null, final(this).base.configured == (old(this).base.configured || r), r ==> final(this).cfg@ == Some(m@) { unimplemented!() }
#[verifier::external_body] pub fn dyn_run(this: &mut BasePtr, d: PipePacket) -> (r: PipePacket) requires !old(this).null, old(this).cfg@.is_some(), !d.complex.null
    ensures !r.complex.null, final(this).base.pipeType == old(this).base.pipeType, r == stage_out(old(this).cls, old(this).cfg@.unwrap(), d), final(this).cls == old(this).cls, !final(this).null, final(this).cfg == old(this).cfg { unimplemented!() }
#[verifier::external_body] pub fn dyn_config_pre(this: &mut PrePtr, m: CMap<CStr,CStr>) -> (r: bool) requires !old(this).null
    ensures r == pre_ok(old(this).cls, m@), final(this).cls == old(this).cls, !final(this).null, final(this).base.configured == (old(this).base.configured || r && old(this).cls != lit("preprocessor")), r ==> final(this).cfg@ == Some(m@) { unimplemented!() }
#[verifier::external_body] pub fn dyn_run_pre(this: &mut PrePtr, d: PipePacket) -> (r: PipePacket) requires !old(this).null, old(this).cfg@.is_some(), !d.complex.null
    ensures !r.complex.null, r == pre_out(old(this).cls, old(this).cfg@.unwrap(), d), final(this).cls == old(this).cls, !final(this).null, final(this).cfg == old(this).cfg { unimplemented!() }
#[verifier::external_body] pub fn ext_size(d: &PipePacket) -> (r: F64) requires !d.complex.null { unimplemented!() }
#[verifier::external_body] pub fn ext_count(d: &SimpPtr) -> (r: i32) requires !d.null { unimplemented!() }
/// the same data; only the run statistics may differ
pub open spec fn same_data(a: PipePacket, b: PipePacket) -> bool { a == (PipePacket { stats: a.stats, ..b }) }
// ---- a pipeline description: its dot-separated stage names
pub open spec fn dot_at(s: Seq<u8>) -> int decreases s.len() { if s.len() == 0 || s[0] == 46 { 0 } else { 1 + dot_at(s.subrange(1, s.len() as int)) } }
pub open spec fn pieces(s: Seq<u8>) -> Seq<CStr> decreases s.len() {
    let k = dot_at(s);
    if 0 <= k < s.len() { seq![cstr_of(s.subrange(0, k))] + pieces(s.subrange(k + 1, s.len() as int)) } else { seq![cstr_of(s)] }
}
pub proof fn lem_dot(s: Seq<u8>) ensures 0 <= dot_at(s) <= s.len(), dot_at(s) < s.len() ==> s[dot_at(s)] == 46, forall|i: int| 0 <= i < dot_at(s) ==> s[i] != 46 decreases s.len()
{
    if s.len() > 0 && s[0] != 46 {
        let t = s.subrange(1, s.len() as int); lem_dot(t);
        assert forall|i: int| 0 <= i < dot_at(s) implies s[i] != 46 by { if i > 0 { assert(t[i-1] == s[i]); } }
    }
}
/// a dot found first is the first dot
pub proof fn lem_dot_unique(s: Seq<u8>, k: int) requires 0 <= k <= s.len(), k < s.len() ==> s[k] == 46, forall|i: int| 0 <= i < k ==> s[i] != 46 ensures dot_at(s) == k
{ lem_dot(s); let d = dot_at(s); if d < k { assert(s[d] != 46); } if k < d { assert(s[k] != 46); } }
pub proof fn lem_count(s: Seq<u8>) ensures pieces(s).len() == scount(s, 46) + 1, scount(s, 46) >= 0 decreases s.len()
{
    if s.len() > 0 {
        let t = s.subrange(1, s.len() as int);
        lem_count(t); lem_dot(s); lem_dot(t);
        if s[0] == 46 { assert(s.subrange(1, s.len() as int) =~= t); }
        else {
            let k = dot_at(s);
            assert(k == dot_at(t) + 1);
            if k < s.len() { assert(t.subrange(k, t.len() as int) =~= s.subrange(k + 1, s.len() as int)); }
        }
    }
}
/// one stage of a pipeline
pub open spec fn stage_step(name: CStr, args: Map<CStr,CStr>, a: PipePacket, b: PipePacket) -> bool {
    let c = stage_class(name, args[lit("complexType")]);
    if c.is_some() && stage_ok(c.unwrap(), args) { same_data(b, stage_out(c.unwrap(), args, a)) && exists|p: Seq<u8>| #[trigger] stat_line(stage_out(c.unwrap(), args, a).stats@, p, b.stats@) } else { b == a }
}
pub open spec fn with_complex(m: Map<CStr,CStr>) -> Map<CStr,CStr> { if has_key(m, "complexType") { m } else { m.insert(lit("complexType"), lit("")) } }
/// the packets between the stages
pub open spec fn pipeline_trace(names: Seq<CStr>, args: Map<CStr,CStr>, tr: Seq<PipePacket>) -> bool {
    tr.len() == names.len() + 1 && forall|i: int| 0 <= i < names.len() ==> stage_step(#[trigger] names[i], args, tr[i], tr[i + 1])
}
pub open spec fn pipeline_result(m: Map<CStr,CStr>, a: PipePacket, b: PipePacket) -> bool {
    if !has_key(m, "pipeline") { b == a }
    else { exists|tr: Seq<PipePacket>| #[trigger] pipeline_trace(pieces(m[lit("pipeline")]@), with_complex(m), tr) && tr[0] == a && tr.last() == b }
}
pub proof fn lem_estr() ensures lit("")@ == Seq::<u8>::empty(), cstr_of(Seq::<u8>::empty()) == lit("") { reveal_strlit(""); assert(lit("")@ =~= Seq::<u8>::empty()); assert(cstr_of(lit("")@) == lit("")); }
/// the packet after the chosen preprocessor
pub open spec fn pre_result(m: Map<CStr,CStr>, a: PipePacket, b: PipePacket) -> bool {
    let n = if has_key(m, "preprocessor") { m[lit("preprocessor")] } else { lit("") };
    let c = pre_class(n);
    if n != lit("") && c.is_some() && c.unwrap() != lit("preprocessor") && pre_ok(c.unwrap(), m) { same_data(b, pre_out(c.unwrap(), with_pre(m), a)) } else { b == a }
}
pub proof fn lem_count_le(s: Seq<u8>, c: u8) ensures 0 <= scount(s, c) <= s.len() decreases s.len() { if s.len() > 0 { lem_count_le(s.subrange(1, s.len() as int), c); } }
pub open spec fn with_pre(m: Map<CStr,CStr>) -> Map<CStr,CStr> { if has_key(m, "preprocessor") { m } else { m.insert(lit("preprocessor"), lit("")) } }
/// what a run leaves on disk: its statistics and its intervals in the files named by the configuration, unless that says console
pub open spec fn results_written(m: Map<CStr,CStr>, w: PipePacket, d0: Map<Seq<u8>, Seq<u8>>, d1: Map<Seq<u8>, Seq<u8>>) -> bool {
    if !has_key(m, "pipeline") || !has_key(m, "outputFile") || m[lit("outputFile")] == lit("console") { d1 == d0 }
    else { exists|d: Map<Seq<u8>, Seq<u8>>| #[trigger] wrote(d0, d, m[lit("outputFile")]@ + lit("_stats.csv")@, lit("PipeName,PhysExecutionTime,MemorySize,MemoryUnits,VertexCount,SimplexCount\n")@ + w.stats@)
        && wrote(d, d1, m[lit("outputFile")]@ + lit(".csv")@, lit("dimension,birth,death\n")@ + w.bettiOutput@) }
}
/// a packet that nothing has been put into yet
pub open spec fn fresh_packet(w: PipePacket) -> bool { w.bettiTable@.len() == 0 && w.originalData@.len() == 0 && w.originalLabels@.len() == 0 && w.fullData@.len() == 0 && w.boundaries@.len() == 0 && w.stats@.len() == 0 && w.bettiOutput@.len() == 0 }
/// the statistics grew by one line that starts with the name of the stage
pub open spec fn stat_line(a: Seq<u8>, name: Seq<u8>, b: Seq<u8>) -> bool { exists|t: Seq<u8>| b == #[trigger] (a + name + lit(",")@ + t + lit("\n")@) }
