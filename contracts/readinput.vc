@fn parse_double_vector
cxx: readInput::parseDoubleVector
file: Utils/readInput.cpp
self: mut ReadInput
requires:
    nums_ok(strip(line@)),
ensures:
    ret == (strip(line@).len() > 0),
    final(row)@ == old(row)@ + nums(strip(line@)),
    *final(this) == *old(this),
at entry:
    broadcast use lem_comma;
    let ghost t = strip(line@);
loop 1 invariant:
    nums_ok(line@),
    row@ + nums(line@) =~= old(row)@ + nums(t),
loop 1 except:
    true,
loop 1 ensures:
    pos == usize::MAX,
    forall|i: int| 0 <= i < line@.len() ==> line@[i] != 44u8,
loop 1 decreases: line@.len()
at loop1.begin:
    let ghost l0 = line@; let ghost r0 = row@;
    proof { lem_comma_at(l0, pos as int); assert(l0.subrange(0, pos as int) =~= l0.subrange(0, comma(l0))); }
at loop1.end:
    assert(line@ =~= tail_after(l0));
    assert(row@ =~= r0.push(dbl_of(l0.subrange(0, comma(l0)))));
    assert(nums(l0) == seq![dbl_of(l0.subrange(0, comma(l0)))] + nums(tail_after(l0)));
at loop1.after:
    proof { lem_comma_at(line@, line@.len() as int); assert(line@.subrange(0, line@.len() as int) =~= line@); }
@end

@fn read_csv
cxx: readInput::readCSV
file: Utils/readInput.cpp
self: mut ReadInput
globals: disk
requires:
    readable(old(disk)@, filename@) ==> csv_ok(old(disk)@[filename@]),
ensures:
    *final(disk) == *old(disk),
    !readable(old(disk)@, filename@) ==> ret@.len() == 0,
    readable(old(disk)@, filename@) ==> vrows(ret@) == csv_rows(old(disk)@[filename@]),
at entry:
    broadcast use lem_nl;
    let ghost c = disk@[filename@];
loop 1 invariant:
    *disk == *old(disk),
    readable(disk@, filename@),
    file.failed() ==> file.ended(),
    !file.ended() ==> csv_ok(file.rest()),
    vrows(result@) + to_come(file) =~= csv_rows(c),
loop 1 decreases: if file.ended() { 0 } else { 1 + file.rest().len() }
at loop1.begin:
    let ghost f0 = file; let ghost r0 = result@;
    assert(csv_rows(f0.rest()) == (if strip(first_line(f0.rest())).len() > 0 { seq![nums(strip(first_line(f0.rest())))] } else { Seq::empty() }) + (if nl(f0.rest()) < f0.rest().len() { csv_rows(after(f0.rest())) } else { Seq::empty() }));
at loop1.end:
    proof {
        let s = strip(first_line(f0.rest()));
        if s.len() > 0 {
            assert(result@ =~= r0.push(tmp));
            assert(tmp@ =~= nums(s));
            assert(vrows(result@) =~= vrows(r0) + seq![nums(s)]);
        } else { assert(result@ == r0); }
    }
@end

@fn read_mat
cxx: readInput::readMAT
file: Utils/readInput.cpp
self: mut ReadInput
globals: disk
requires:
    readable(old(disk)@, filename@) ==> mat_ok(old(disk)@[filename@]),
ensures:
    *final(disk) == *old(disk),
    !readable(old(disk)@, filename@) || !mat_header(old(disk)@[filename@]) ==> ret@.len() == 0,
    readable(old(disk)@, filename@) && mat_header(old(disk)@[filename@]) ==> ret@.len() == mat_n(old(disk)@[filename@]) && forall|i: int| 0 <= i < ret@.len() ==> (#[trigger] ret@[i])@ == mat_block(old(disk)@[filename@], i),
at entry:
    broadcast use lem_nl;
    let ghost c = disk@[filename@];
loop 1 invariant:
    *disk == *old(disk),
    readable(disk@, filename@), mat_header(c), mat_ok(c),
    file.failed() ==> file.ended(),
    dimensions > 0 ==> mat_d(c) == dimensions, dimensions <= 0 ==> mat_d(c) == 0,
    vectors > 0 ==> mat_n(c) == vectors, vectors <= 0 ==> mat_n(c) == 0,
    0 <= vect, vect <= vectors || vect == 0,
    file.rest() == mat_at(c, vect as int), file.ended() ==> file.rest().len() == 0,
    result@.len() == vect,
    forall|i: int| 0 <= i < vect ==> (#[trigger] result@[i])@ == mat_block(c, i),
loop 1 decreases: vectors - vect
loop 2 invariant:
    *disk == *old(disk),
    0 <= dim, dim <= dimensions || dim == 0,
    file.failed() ==> file.ended(),
    file.rest() == drop_lines(mat_at(c, vect as int), dim as int), file.ended() ==> file.rest().len() == 0,
    tmp@ == mat_row(mat_at(c, vect as int), dim as int),
loop 2 decreases: dimensions - dim
at loop1.before:
    assert(mat_at(c, 0) == drop_lines(c, 2)) by { assert(0 * mat_d(c) == 0); }
    assert(drop_lines(c, 2) == after(after(c))) by { assert(drop_lines(c, 2) == after(drop_lines(c, 1))); assert(drop_lines(c, 1) == after(drop_lines(c, 0))); }
at loop2.begin:
    let ghost g0 = file.rest(); let ghost t0 = tmp@;
    proof { if g0.len() == 0 { lem_after_empty(g0); lem_strip_empty(first_line(g0)); } lem_drop_add(c, 2 + vect * mat_d(c), dim as int); assert(0 <= vect * mat_d(c)) by(nonlinear_arith) requires vect >= 0, mat_d(c) >= 0; let k = 2 + vect * mat_d(c) + dim; assert(line_at(c, k) == first_line(g0)); assert(k >= 2); let u = despace(line_at(c, k)); assert(u.len() == 0 || dbl_ok(u)); }
at loop2.end:
    proof {
        let t = despace(line_at(mat_at(c, vect as int), dim as int));
        assert(drop_lines(mat_at(c, vect as int), dim + 1) == after(g0));
        assert(line_at(mat_at(c, vect as int), dim as int) == first_line(g0));
        assert(mat_row(mat_at(c, vect as int), dim + 1) == t0 + (if t.len() > 0 { seq![dbl_of(t)] } else { Seq::empty() }));
        if t.len() > 0 { assert(tmp@ =~= t0 + seq![dbl_of(t)]); } else { assert(t0 + Seq::<F64>::empty() =~= t0); }
    }
at loop1.end:
    proof {
        let d = mat_d(c);
        assert((vect + 1) * d == vect * d + d) by(nonlinear_arith);
        assert(0 <= vect * d) by(nonlinear_arith) requires vect >= 0, d >= 0;
        lem_drop_add(c, 2 + vect * d, d);
    }
@end

@fn read_input_new
cxx: readInput::readInput
file: Utils/readInput.cpp
self: ctor ReadInput
ensures:
    ret.pFile.isnull(),
@end

@fn stream_init
cxx: readInput::streamInit
file: Utils/readInput.cpp
self: mut ReadInput
globals: disk
ensures:
    *final(disk) == *old(disk),
    ret == readable(old(disk)@, filename@), final(this).pFile.isnull() == !ret,
    ret ==> final(this).pFile.rest() == old(disk)@[filename@],
@end

@fn stream_read
cxx: readInput::streamRead
file: Utils/readInput.cpp
self: mut ReadInput
requires:
    !old(this).pFile.isnull() ==> no_nul(old(this).pFile.rest()) && nl(old(this).pFile.rest()) < 999 && nums_ok(strip(first_line(old(this).pFile.rest()))),
ensures:
    final(this).pFile.isnull() == old(this).pFile.isnull(),
    old(this).pFile.isnull() ==> !ret && final(row)@ == old(row)@,
    !old(this).pFile.isnull() ==> {
        let c = old(this).pFile.rest(); let t = strip(first_line(c));
        &&& ret == (t.len() > 0)
        &&& final(row)@ == old(row)@ + nums(t)
        &&& final(this).pFile.rest() == after(c)
    },
at entry:
    broadcast use lem_nl;
    let ghost c = this.pFile.rest();
    proof { if !this.pFile.isnull() { lem_chunk(c, 1000); } if c.len() == 0 { lem_after_empty(c); lem_strip_empty(c); assert(row@ + nums(strip(first_line(c))) =~= row@); } }
@end
