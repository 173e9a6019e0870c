// ---- the option tables (the documented long names, short names and default values)
pub open spec fn doc_short() -> Map<CStr,CStr> {
    Map::<CStr,CStr>::empty().insert(lit("mpi"), lit("a")).insert(lit("mode"), lit("m")).insert(lit("dimensions"), lit("d")).insert(lit("iterations"), lit("r"))
        .insert(lit("pipeline"), lit("p")).insert(lit("inputFile"), lit("i")).insert(lit("outputFile"), lit("o")).insert(lit("epsilon"), lit("e"))
        .insert(lit("lambda"), lit("l")).insert(lit("debug"), lit("x")).insert(lit("complexType"), lit("c")).insert(lit("clusters"), lit("k"))
        .insert(lit("preprocessor"), lit("pre")).insert(lit("upscale"), lit("u")).insert(lit("twist"), lit("t")).insert(lit("collapse"), lit("z"))
}
pub open spec fn doc_default() -> Map<CStr,CStr> {
    Map::<CStr,CStr>::empty().insert(lit("mpi"), lit("0")).insert(lit("mode"), lit("standard")).insert(lit("dimensions"), lit("1")).insert(lit("iterations"), lit("250"))
        .insert(lit("pipeline"), lit("")).insert(lit("inputFile"), lit("None")).insert(lit("outputFile"), lit("output.csv")).insert(lit("epsilon"), lit("5"))
        .insert(lit("lambda"), lit(".25")).insert(lit("debug"), lit("0")).insert(lit("complexType"), lit("simplexTree")).insert(lit("clusters"), lit("20"))
        .insert(lit("preprocessor"), lit("")).insert(lit("upscale"), lit("false")).insert(lit("twist"), lit("false")).insert(lit("collapse"), lit("false"))
}
/// the tables in use are the documented ones
pub open spec fn tables(am: Map<CStr,CStr>, dm: Map<CStr,CStr>) -> bool { am == doc_short() && dm == doc_default() }
/// long and short names are all different
#[verifier::opaque]
pub open spec fn names_ok(s: Map<CStr,CStr>) -> bool {
    &&& forall|a: CStr, b: CStr| #![trigger s[a], s.contains_key(b)] s.contains_key(a) && s.contains_key(b) ==> s[a] != b
    &&& forall|a: CStr, b: CStr| #![trigger s[a], s[b]] s.contains_key(a) && s.contains_key(b) && a != b ==> s[a] != s[b]
}
pub open spec fn is_short(s: Map<CStr,CStr>, k: CStr) -> bool { exists|l: CStr| #[trigger] s.contains_key(l) && s[l] == k }
/// value of option `l` after resolution
pub open spec fn opt_value(m: Map<CStr,CStr>, s: Map<CStr,CStr>, d: Map<CStr,CStr>, l: CStr) -> CStr {
    if m.contains_key(s[l]) { m[s[l]] } else if m.contains_key(l) { m[l] } else { d[l] }
}
/// the complete options made of the given ones
pub open spec fn resolved(m: Map<CStr,CStr>, r: Map<CStr,CStr>, s: Map<CStr,CStr>, d: Map<CStr,CStr>) -> bool {
    &&& forall|l: CStr| #[trigger] s.contains_key(l) ==> r.contains_key(l) && r[l] == opt_value(m, s, d, l) && !r.contains_key(s[l])
    &&& forall|k: CStr| #![trigger r.contains_key(k)] !s.contains_key(k) && !is_short(s, k) ==> r.contains_key(k) == m.contains_key(k) && (m.contains_key(k) ==> r[k] == m[k])
}
/// the same, when only the names in `ks` have been dealt with
#[verifier::opaque]
pub open spec fn resolving(m: Map<CStr,CStr>, r: Map<CStr,CStr>, s: Map<CStr,CStr>, d: Map<CStr,CStr>, ks: Set<CStr>) -> bool {
    &&& forall|l: CStr| #[trigger] s.contains_key(l) && ks.contains(l) ==> r.contains_key(l) && r[l] == opt_value(m, s, d, l) && !r.contains_key(s[l])
    &&& forall|l: CStr| #[trigger] s.contains_key(l) && !ks.contains(l) ==> r.contains_key(l) == m.contains_key(l) && (m.contains_key(l) ==> r[l] == m[l]) && r.contains_key(s[l]) == m.contains_key(s[l]) && (m.contains_key(s[l]) ==> r[s[l]] == m[s[l]])
    &&& forall|k: CStr| #![trigger r.contains_key(k)] !s.contains_key(k) && !is_short(s, k) ==> r.contains_key(k) == m.contains_key(k) && (m.contains_key(k) ==> r[k] == m[k])
}
pub proof fn lem_names() ensures names_ok(doc_short()), doc_default().dom() == doc_short().dom()
{
    ax_lits(); reveal(names_ok);
    assert(doc_default().dom() =~= doc_short().dom());
}
pub proof fn lem_res_start(m: Map<CStr,CStr>, s: Map<CStr,CStr>, d: Map<CStr,CStr>) ensures resolving(m, m, s, d, Set::empty()) { reveal(resolving); }
pub proof fn lem_res_step(m: Map<CStr,CStr>, r: Map<CStr,CStr>, q: Map<CStr,CStr>, s: Map<CStr,CStr>, d: Map<CStr,CStr>, ks: Set<CStr>, l: CStr)
    requires names_ok(s), resolving(m, r, s, d, ks), s.contains_key(l), !ks.contains(l), d.contains_key(l),
        q =~= (if r.contains_key(s[l]) { r.insert(l, r[s[l]]).remove(s[l]) } else if r.contains_key(l) { r } else { r.insert(l, d[l]) }),
    ensures resolving(m, q, s, d, ks.insert(l)),
{
    reveal(names_ok); reveal(resolving);
    let sl = s[l];
    assert(s[l] != l);
    assert forall|x: CStr| #[trigger] s.contains_key(x) && ks.insert(l).contains(x) implies q.contains_key(x) && q[x] == opt_value(m, s, d, x) && !q.contains_key(s[x]) by {
        if x != l { assert(s[x] != s[l]); assert(s[x] != l); assert(s[l] != x); }
    }
    assert forall|x: CStr| #[trigger] s.contains_key(x) && !ks.insert(l).contains(x) implies q.contains_key(x) == m.contains_key(x) && (m.contains_key(x) ==> q[x] == m[x]) && q.contains_key(s[x]) == m.contains_key(s[x]) && (m.contains_key(s[x]) ==> q[s[x]] == m[s[x]]) by {
        assert(s[x] != s[l]); assert(s[x] != l); assert(s[l] != x);
    }
    assert forall|k: CStr| #![trigger q.contains_key(k)] !s.contains_key(k) && !is_short(s, k) implies q.contains_key(k) == m.contains_key(k) && (m.contains_key(k) ==> q[k] == m[k]) by {
        assert(k != sl); assert(r.contains_key(k) == m.contains_key(k));
    }
    let ks2 = ks.insert(l);
    assert(forall|l: CStr| #[trigger] s.contains_key(l) && ks2.contains(l) ==> q.contains_key(l) && q[l] == opt_value(m, s, d, l) && !q.contains_key(s[l]));
    assert(forall|l: CStr| #[trigger] s.contains_key(l) && !ks2.contains(l) ==> q.contains_key(l) == m.contains_key(l) && (m.contains_key(l) ==> q[l] == m[l]) && q.contains_key(s[l]) == m.contains_key(s[l]) && (m.contains_key(s[l]) ==> q[s[l]] == m[s[l]]));
    assert(forall|k: CStr| #![trigger q.contains_key(k)] !s.contains_key(k) && !is_short(s, k) ==> q.contains_key(k) == m.contains_key(k) && (m.contains_key(k) ==> q[k] == m[k]));
    assert(resolving(m, q, s, d, ks2)); assert(ks2 == ks.insert(l));
}
pub proof fn lem_res_end(m: Map<CStr,CStr>, r: Map<CStr,CStr>, s: Map<CStr,CStr>, d: Map<CStr,CStr>, ks: Set<CStr>)
    requires resolving(m, r, s, d, ks), forall|l: CStr| s.contains_key(l) ==> ks.contains(l)
    ensures resolved(m, r, s, d)
{ reveal(resolving); }
pub proof fn lem_take_names(s: Seq<CStr>, i: int) requires 0 <= i < s.len(), dupfree(s)
    ensures !s.take(i).to_set().contains(s[i]), s.take(i + 1).to_set() == s.take(i).to_set().insert(s[i])
{
    assert(s.take(i+1) =~= s.take(i).push(s[i]));
    let p = s.take(i); let q = s.take(i+1);
    assert forall|x: CStr| q.contains(x) <==> p.contains(x) || x == s[i] by {
        if p.contains(x) { let k = choose|k: int| 0 <= k < i && p[k] == x; assert(q[k] == x); }
        assert(q[i] == s[i]);
        if q.contains(x) { let k = choose|k: int| 0 <= k < i+1 && q[k] == x; if k < i { assert(p[k] == x); } }
    }
    assert forall|x: CStr| q.to_set().contains(x) <==> p.to_set().insert(s[i]).contains(x) by { assert(q.contains(x) <==> p.contains(x) || x == s[i]); }
    assert(q.to_set() =~= p.to_set().insert(s[i]));
    if s.take(i).contains(s[i]) { let k = choose|k: int| 0 <= k < i && s.take(i)[k] == s[i]; assert(s[k] != s[i]); }
}
// ---- the command line
pub open spec fn long_opt(a: CStr) -> bool { a@.len() >= 2 && a@[0] == 45 && a@[1] == 45 }
pub open spec fn any_opt(a: CStr) -> bool { a@.len() >= 1 && a@[0] == 45 }
pub open spec fn opt_name(a: CStr) -> CStr { if long_opt(a) { cstr_of(a@.subrange(2, a@.len() as int)) } else { cstr_of(a@.subrange(1, a@.len() as int)) } }
/// the options given by the words 1 .. i of the command line: pairs of a name led by one or two dashes and its value, the last one counts
pub open spec fn given(a: Seq<CStr>, i: int) -> Map<CStr,CStr> decreases i
{
    if i <= 1 { Map::empty() }
    else { let m = given(a, i - 2); let p = i - 2;
        if 0 <= p && p + 1 < a.len() && any_opt(a[p]) { m.insert(opt_name(a[p]), a[p + 1]) } else { m } }
}
pub proof fn lem_dashes(a: CStr)
    ensures a@.len() >= 2 ==> ((cstr_of(a@.subrange(0, 2)) == lit("--")) == long_opt(a)), a@.len() < 2 ==> a != lit("--"),
        a@.len() >= 1 ==> ((cstr_of(a@.subrange(0, 1)) == lit("-")) == any_opt(a)), a@.len() < 1 ==> a != lit("-"),
{
    reveal_strlit("--"); reveal_strlit("-");
    assert(lit("--")@ =~= seq![45u8, 45u8]); assert(lit("-")@ =~= seq![45u8]);
    if a@.len() >= 2 { let s = a@.subrange(0, 2); if long_opt(a) { assert(s =~= seq![45u8, 45u8]); assert(cstr_of(lit("--")@) == lit("--")); } else if cstr_of(s) == lit("--") { assert(s[0] == 45 && s[1] == 45); } }
    if a@.len() >= 1 { let s = a@.subrange(0, 1); if any_opt(a) { assert(s =~= seq![45u8]); assert(cstr_of(lit("-")@) == lit("-")); } else if cstr_of(s) == lit("-") { assert(s[0] == 45); } }
}
// ---- run modes
/// an option that is absent counts as empty
pub open spec fn gv(m: Map<CStr,CStr>, k: CStr) -> CStr { if m.contains_key(k) { m[k] } else { lit("") } }
pub proof fn lem_empty() ensures lit("")@ == Seq::<u8>::empty(), cstr_of(Seq::<u8>::empty()) == lit("") { reveal_strlit(""); assert(lit("")@ =~= Seq::<u8>::empty()); assert(cstr_of(lit("")@) == lit("")); }
pub open spec fn p_fast() -> CStr { lit("distMatrix.neighGraph.rips.fastPersistence") }
/// pipeline of a mode, None when the mode is unknown
pub open spec fn mode_pipeline(mode: CStr) -> Option<CStr> {
    if mode == lit("standard") || mode == lit("reduced") || mode == lit("stream") || mode == lit("fast") { Some(p_fast()) }
    else if mode == lit("upscaleBound") { Some(lit("distMatrix.neighGraph.rips.persistence.boundary.upscale")) }
    else if mode == lit("sw") || mode == lit("slidingwindow") { Some(lit("slidingwindow")) }
    else if mode == lit("naive") || mode == lit("naivewindow") { Some(lit("naivewindow")) }
    else { None }
}
/// preprocessor of a mode, given the chosen one
pub open spec fn mode_preprocessor(mode: CStr, pre: CStr) -> CStr {
    if mode == lit("reduced") || mode == lit("upscaleBound") { if pre == lit("") { lit("kmeans++") } else { pre } }
    else if mode == lit("stream") { if pre == lit("") { lit("streamingkmeans") } else { pre } }
    else if mode == lit("sw") || mode == lit("slidingwindow") || mode == lit("naive") || mode == lit("naivewindow") { lit("") }
    else { pre }
}
pub open spec fn single_tree(mode: CStr) -> bool { mode == lit("reduced") || mode == lit("fast") || mode == lit("sw") || mode == lit("slidingwindow") || mode == lit("naive") || mode == lit("naivewindow") }
pub open spec fn mode_upscale(mode: CStr, up: CStr) -> CStr { if mode == lit("upscaleBound") { lit("true") } else if single_tree(mode) { lit("false") } else { up } }
pub open spec fn mode_complex(mode: CStr, c: CStr) -> CStr { if single_tree(mode) { lit("simplexTree") } else { c } }
/// the options after the run mode has filled in its settings
pub open spec fn mode_value(m: Map<CStr,CStr>, k: CStr) -> CStr {
    let mode = gv(m, lit("mode")); let v = gv(m, k);
    if gv(m, lit("mpi")) == lit("1") {
        if k == lit("pipeline") { p_fast() } else if k == lit("preprocessor") { if v == lit("") { lit("kmeans++") } else { v } } else if k == lit("upscale") { lit("true") } else { v }
    } else if gv(m, lit("pipeline")) != lit("") || mode_pipeline(mode).is_none() { v }
    else if k == lit("pipeline") { mode_pipeline(mode).unwrap() }
    else if k == lit("preprocessor") { mode_preprocessor(mode, v) }
    else if k == lit("upscale") { mode_upscale(mode, v) }
    else if k == lit("complexType") { mode_complex(mode, v) }
    else { v }
}
