@fn write_stats
cxx: writeOutput::writeStats
file: Utils/writeOutput.cpp
self: mut WriteOutput
globals: disk
at entry:
    broadcast use lem_ins2;
ensures:
    ret, wrote(old(disk)@, final(disk)@, filename@ + lit("_stats.csv")@, Seq::<u8>::empty() + lit("PipeName,PhysExecutionTime,MemorySize,MemoryUnits,VertexCount,SimplexCount\n")@ + stats@),
@end

@fn write_barcodes_v
cxx: writeOutput::writeBarcodes
file: Utils/writeOutput.cpp
sig: std::vector<std::vector<double>>; std::string
self: mut WriteOutput
globals: disk
at entry:
    broadcast use lem_ins2;
ensures:
    ret, wrote(old(disk)@, final(disk)@, filename@ + lit(".csv")@, t_csv(Seq::<u8>::empty() + lit("dimension,birth,death\n")@, data@, data@.len() as int)),
@end

@fn write_barcodes_s
cxx: writeOutput::writeBarcodes
file: Utils/writeOutput.cpp
sig: std::string; std::string
self: mut WriteOutput
globals: disk
at entry:
    broadcast use lem_ins2;
ensures:
    ret, wrote(old(disk)@, final(disk)@, filename@ + lit(".csv")@, Seq::<u8>::empty() + lit("dimension,birth,death\n")@ + data@),
@end

@fn write_csv_v
cxx: writeOutput::writeCSV
file: Utils/writeOutput.cpp
sig: std::vector<std::vector<double>>; std::string
self: mut WriteOutput
globals: disk
at entry:
    broadcast use lem_ins2;
ensures:
    ret, wrote(old(disk)@, final(disk)@, filename@ + lit(".csv")@, t_csv(Seq::<u8>::empty(), data@, data@.len() as int)),
loop 1 invariant:
    file.name() == filename@ + lit(".csv")@, file.ok() == writable(file.name()),
    wrote(old(disk)@, disk@, file.name(), t_csv(Seq::<u8>::empty(), $r@, $i as int)),
loop 2 invariant:
    file.name() == filename@ + lit(".csv")@, file.ok() == writable(file.name()),
    wrote(old(disk)@, disk@, file.name(), t_row(t_csv(Seq::<u8>::empty(), data@, row_i as int), $r@, $i as int, lit(",")@)),
@end

@fn write_csv_s
cxx: writeOutput::writeCSV
file: Utils/writeOutput.cpp
sig: std::string; std::string
self: mut WriteOutput
globals: disk
at entry:
    broadcast use lem_ins2;
ensures:
    ret, wrote(old(disk)@, final(disk)@, filename@ + lit(".csv")@, Seq::<u8>::empty() + data@),
@end

@fn write_csv_vh
cxx: writeOutput::writeCSV
file: Utils/writeOutput.cpp
sig: std::vector<std::vector<double>>; std::string; std::string
self: mut WriteOutput
globals: disk
at entry:
    broadcast use lem_ins2;
ensures:
    ret, wrote(old(disk)@, final(disk)@, filename@ + lit(".csv")@, t_csv(Seq::<u8>::empty() + header@, data@, data@.len() as int)),
loop 1 invariant:
    file.name() == filename@ + lit(".csv")@, file.ok() == writable(file.name()),
    wrote(old(disk)@, disk@, file.name(), t_csv(Seq::<u8>::empty() + header@, $r@, $i as int)),
loop 2 invariant:
    file.name() == filename@ + lit(".csv")@, file.ok() == writable(file.name()),
    wrote(old(disk)@, disk@, file.name(), t_row(t_csv(Seq::<u8>::empty() + header@, data@, row_i as int), $r@, $i as int, lit(",")@)),
@end

@fn write_csv_sh
cxx: writeOutput::writeCSV
file: Utils/writeOutput.cpp
sig: std::string; std::string; std::string
self: mut WriteOutput
globals: disk
at entry:
    broadcast use lem_ins2;
ensures:
    ret, wrote(old(disk)@, final(disk)@, filename@ + lit(".csv")@, Seq::<u8>::empty() + header@ + data@),
@end

@fn write_mat
cxx: writeOutput::writeMAT
file: Utils/writeOutput.cpp
self: mut WriteOutput
globals: disk
ensures:
    ret, wrote(old(disk)@, final(disk)@, filename@ + lit(".mat")@, t_mat(Seq::<u8>::empty() + dec_i(data@.len() as int)@ + lit("\n")@ + dec_i(if data@.len() > 0 { data@[0]@.len() as int } else { 0 })@ + lit("\n")@, data@, data@.len() as int)),
at entry:
    broadcast use lem_ins2;
    let ghost hd = Seq::<u8>::empty() + dec_i(data@.len() as int)@ + lit("\n")@ + dec_i(if data@.len() > 0 { data@[0]@.len() as int } else { 0 })@ + lit("\n")@;
loop 1 invariant:
    file.name() == filename@ + lit(".mat")@, file.ok() == writable(file.name()),
    wrote(old(disk)@, disk@, file.name(), t_mat(hd, $r@, $i as int)),
loop 2 invariant:
    file.name() == filename@ + lit(".mat")@, file.ok() == writable(file.name()),
    wrote(old(disk)@, disk@, file.name(), t_row(t_mat(hd, data@, row_i as int), $r@, $i as int, lit("\n")@)),
@end
