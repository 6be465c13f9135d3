#! The CSV readers of the library (C23)
#include iter.vxi
#include fs.vxi
#include text.vxi
#include csvx.vxi
#include csvspec.vxi
#file atsc/src/csv.rs
#fn open_csv_reader
#opt world=open alias=Result:CsvResult
#spec
    ensures *final(fs) == *old(fs),
        ret is Ok ==> old(fs).files.dom().contains(pid($1)) && ret->Ok_0.id() == pid($1) && ret->Ok_0.headers_() == $2 && ret->Ok_0.fresh(),
        ret is Err ==> ret->Err_0 == Error::OpenFileFailed && (old(fs).healthy ==> !old(fs).files.dom().contains(pid($1))),
#closure 0 |$c1: IoError| -> (r: Error)
    ensures r == Error::OpenFileFailed
#fn read_samples
#opt alias=Result:CsvResult world=open_csv_reader,records shim=parse:v_parse
#spec
    ensures *final(fs) == *old(fs),
        ret is Ok ==> old(fs).files.dom().contains(pid($1)) && column(body(old(fs).files[pid($1)], false), 0, ret),
        old(fs).healthy ==> if old(fs).files.dom().contains(pid($1)) { column(body(old(fs).files[pid($1)], false), 0, ret) } else { ret == Err::<Vec<Sample>, Error>(Error::OpenFileFailed) },
#closure 0 |$c1: csv::Error| -> (r: Error)
    ensures r == Error::Unexpected
#closure 1 |$c1: ParseError| -> (r: Error)
    ensures r == Error::ParsingValueFailed
#loop 0 for it
        invariant
            *fs == *old(fs), old(fs).files.dom().contains(pid($1)), 0 <= it.index() <= it.seq().len(), csv::read(it.seq(), old(fs).files[pid($1)], false, old(fs).healthy), samples@.len() == it.index(),
            forall|i: int| 0 <= i < it.index() ==> (#[trigger] it.seq()[i]) is Ok,
            read_so_far(samples@, body(old(fs).files[pid($1)], false), 0),
#file atsc/src/csv.rs
#fn read_samples_with_headers
#opt alias=Result:CsvResult world=open_csv_reader,headers,records shim=parse:v_parse
#spec
    ensures *final(fs) == *old(fs),
        ret is Ok ==> old(fs).files.dom().contains(pid($1)) && named(old(fs).files[pid($1)], $2@, $3@, ret),
        old(fs).healthy ==> if old(fs).files.dom().contains(pid($1)) { named(old(fs).files[pid($1)], $2@, $3@, ret) } else { ret == Err::<Vec<Sample>, Error>(Error::OpenFileFailed) },
#closure 0 |$c1: csv::Error| -> (r: Error)
    ensures r == Error::Unexpected
#closure 1 |$c1: &str| -> (r: bool)
    ensures r == ($c1@ == $2@)
#closure 2 |$c1: &str| -> (r: bool)
    ensures r == ($c1@ == $3@)
#closure 3 |$c1: csv::Error| -> (r: Error)
    ensures r == Error::Unexpected
#closure 4 |$c1: ParseError| -> (r: Error)
    ensures r == Error::ParsingValueFailed
#loop 0 for it
        invariant
            *fs == *old(fs), old(fs).files.dom().contains(pid($1)), 0 <= it.index() <= it.seq().len(), csv::read(it.seq(), old(fs).files[pid($1)], true, old(fs).healthy), samples@.len() == it.index(),
            forall|i: int| 0 <= i < it.index() ==> (#[trigger] it.seq()[i]) is Ok,
            head(old(fs).files[pid($1)]) is Some, !lacks(head(old(fs).files[pid($1)])->0, $2@), is_first(head(old(fs).files[pid($1)])->0, $3@, value_idx as int),
            read_so_far(samples@, body(old(fs).files[pid($1)], true), value_idx as int),
